From 79e2a0eed9ef99f65fc5cc5d42fdb03e48925395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 01/64] fix: return an error instead of panicking when the
 database file cannot be read

---
 db/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/query/query.go b/db/query/query.go
index b7f5b7c..3311c3e 100644
--- a/db/query/query.go
+++ b/db/query/query.go
@@ -20,7 +20,7 @@ type Db struct {
 func NewDb(file string) (*Db, error) {
 	b, err := os.ReadFile(file)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	extend := path.Ext(file)
 	return NewDbFromBytes(extend, b)
-- 
2.43.0


From 60a33dcf7610c2a69904ca1ef80ba109248846f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 02/64] fix: refuse ipdb files whose header, node count,
 language offset or record offsets lie outside the file

---
 db/format/ipdb/reader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index cff845a..180e901 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -47,6 +47,9 @@ const iOff = 5
 
 func newReaderFromBytes(data []byte) (*reader, error) {
 	var meta MetaData
+	if len(data) < 4 {
+		return nil, db2.ErrFileSize
+	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
 	if len(data) < (4 + metaLength) {
 		return nil, db2.ErrFileSize
@@ -60,6 +63,9 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 	if len(data) != (4 + metaLength + meta.TotalSize) {
 		return nil, db2.ErrFileSize
 	}
+	if meta.NodeCount < 0 || meta.NodeCount > (len(data)-4-metaLength)/8 {
+		return nil, db2.ErrMetaData
+	}
 
 	db := &reader{
 		fileSize:        len(data),
@@ -145,7 +151,7 @@ func (db *reader) decodeInfo(body []byte, off int) ([]string, error) {
 	str := (*string)(unsafe.Pointer(&body))
 	tmp := strings.Split(*str, "\t")
 
-	if (off + len(db.meta.Fields)) > len(tmp) {
+	if off < 0 || off > len(tmp)-len(db.meta.Fields) {
 		return nil, db2.ErrDatabaseError
 	}
 	ret := tmp[off : off+len(db.meta.Fields)]
@@ -254,7 +260,7 @@ func (db *reader) readNode(node, indexBit int) int {
 
 func (db *reader) resolve(node int) ([]byte, error) {
 	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved >= db.fileSize {
+	if resolved+2 > len(db.data) {
 		return nil, db2.ErrDatabaseError
 	}
 
-- 
2.43.0


From 49427437002500b2f90c46b0e704bc70d34bb819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 03/64] fix: report the lookup error of an ipdb query instead
 of decoding an empty record

---
 db/format/ipdb/querier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 3034a01..479e596 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -40,6 +40,9 @@ func (q *querier) Query(ip net.IP) (*inf.IpInfo, int, error) {
 
 func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, error) {
 	node, body, mask, err := q.r.find0(ip)
+	if err != nil {
+		return 0, nil, 0, err
+	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
 			return node, v, mask, nil
-- 
2.43.0


From 84983ded572fc6bf75be3722e5e1941c124cde59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 04/64] fix: hand out a copy of a cached result so that callers
 cannot change later answers

---
 db/format/ipdb/querier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/querier.go b/db/format/ipdb/querier.go
index 479e596..9c05216 100644
--- a/db/format/ipdb/querier.go
+++ b/db/format/ipdb/querier.go
@@ -45,7 +45,8 @@ func (q *querier) QueryInternal(ip net.IP, cache bool) (int, *inf.IpInfo, int, e
 	}
 	if cache {
 		if v, ok := q.queryCache[node]; ok {
-			return node, v, mask, nil
+			info := *v
+			return node, &info, mask, nil
 		}
 	}
 
-- 
2.43.0


From 92cc9210716ba863eb418c861e5da2b26e62f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 05/64] fix: open awdb files shorter than the metadata window
 and refuse overflowing tree sizes

---
 db/format/awdb/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 5592167..676835e 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -43,6 +43,9 @@ const metaDetectStart = 2000
 // a Reader structure or an error.
 func FromBytes(buffer []byte) (*Reader, error) {
 	detectOffset := len(buffer) - metaDetectStart
+	if detectOffset < 0 {
+		detectOffset = 0
+	}
 	metaIn := buffer[detectOffset:]
 	metadataStart := bytes.LastIndex(metaIn, metadataStartMarker)
 
@@ -61,6 +64,9 @@ func FromBytes(buffer []byte) (*Reader, error) {
 	}
 
 	metadataStart += detectOffset
+	if metadata.NodeCount > uint(len(buffer)) || metadata.RecordSize > 32 {
+		return nil, newInvalidDatabaseError("the aw DB contains invalid metadata")
+	}
 	searchTreeSize := metadata.NodeCount * metadata.RecordSize / 4
 	dataSectionStart := searchTreeSize + dataSectionSeparatorSize
 	dataSectionEnd := uint(metadataStart)
-- 
2.43.0


From f9087dd4431b858d4e8418064ee18d80bed95b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 06/64] fix: return errors for awdb addresses without a record
 and for records that are not maps of strings

---
 db/format/awdb/decoder.go |  3 +++
 db/format/awdb/dumper.go  | 13 ++++++-------
 db/format/awdb/querier.go | 13 ++++++-------
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 98addb8..1a53505 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -214,6 +214,9 @@ func (d *decoder) unmarshalBytes(size uint, offset uint, result reflect.Value) (
 			result.SetBytes(value)
 			return newOffset, nil
 		}
+	case reflect.String:
+		result.SetString(string(value))
+		return newOffset, nil
 	case reflect.Interface:
 		if result.NumMethod() == 0 {
 			result.Set(reflect.ValueOf(value))
diff --git a/db/format/awdb/dumper.go b/db/format/awdb/dumper.go
index 29bc19f..fc20127 100644
--- a/db/format/awdb/dumper.go
+++ b/db/format/awdb/dumper.go
@@ -1,6 +1,7 @@
 package awdb
 
 import (
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 	"log"
@@ -61,17 +62,15 @@ func (t *traversal) dump(exporter inf.Exporter) (*inf.IpData, error) {
 }
 
 func (t *traversal) find(ip net.IP) (*net.IPNet, map[string]string, error) {
-	var record interface{}
-	ipNet, _, err := t.reader.LookupNetwork(ip, &record)
+	var record map[string]string
+	ipNet, ok, err := t.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
-
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
 	}
-	return ipNet, data, nil
+	return ipNet, record, nil
 }
 
 func (t *traversal) versionInfo() *inf.VersionInfo {
diff --git a/db/format/awdb/querier.go b/db/format/awdb/querier.go
index 5ac994b..e5f97d7 100644
--- a/db/format/awdb/querier.go
+++ b/db/format/awdb/querier.go
@@ -4,6 +4,7 @@ import (
 	"log"
 	"net"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -64,17 +65,15 @@ func (q *querier) BuildCache(ipList []string) {
 }
 
 func (q *querier) Find(ip net.IP) (*net.IPNet, map[string]string, error) {
-	var record interface{}
-	ipNet, _, err := q.reader.LookupNetwork(ip, &record)
+	var record map[string]string
+	ipNet, ok, err := q.reader.LookupNetwork(ip, &record)
 	if err != nil {
 		return nil, nil, err
 	}
-
-	data := make(map[string]string)
-	for k, v := range record.(map[string]interface{}) {
-		data[k] = string(v.([]byte))
+	if !ok {
+		return nil, nil, db.ErrDataNotExists
 	}
-	return ipNet, data, nil
+	return ipNet, record, nil
 }
 
 func (q *querier) VersionInfo() *inf.VersionInfo {
-- 
2.43.0


From b2cb15c8115d421afef4abe13e71cc280cb82cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 07/64] fix: bound awdb decoding by the file size and by
 pointer depth

---
 db/format/awdb/decoder.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 1a53505..bc24632 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -302,6 +302,10 @@ func (d *decoder) unmarshalMap(
 	result reflect.Value,
 	depth int,
 ) (uint, error) {
+	// every entry takes at least one byte
+	if size > uint(len(d.buffer))-offset {
+		return 0, newOffsetError()
+	}
 	result = d.indirect(result)
 	switch result.Kind() {
 	default:
@@ -336,6 +340,10 @@ func (d *decoder) unmarshalSlice(
 	result reflect.Value,
 	depth int,
 ) (uint, error) {
+	// every element takes at least one byte
+	if size > uint(len(d.buffer))-offset {
+		return 0, newOffsetError()
+	}
 	switch result.Kind() {
 	case reflect.Slice:
 		return d.decodeSlice(size, offset, result, depth)
@@ -470,7 +478,7 @@ func (d *decoder) decodeMap(
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
-		key, offset, err = d.decodeKey(offset)
+		key, offset, err = d.decodeKey(offset, depth)
 
 		if err != nil {
 			return 0, err
@@ -570,7 +578,7 @@ func (d *decoder) decodeStruct(
 			err error
 			key []byte
 		)
-		key, offset, err = d.decodeKey(offset)
+		key, offset, err = d.decodeKey(offset, depth)
 		if err != nil {
 			return 0, err
 		}
@@ -662,7 +670,10 @@ func uintFromBytes(prefix uint, uintBytes []byte) uint {
 // can take advantage of https://github.com/golang/go/issues/3512 to avoid
 // copying the bytes when decoding a struct. Previously, we achieved this by
 // using unsafe.
-func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
+func (d *decoder) decodeKey(offset uint, depth int) ([]byte, uint, error) {
+	if depth > maximumDataStructureDepth {
+		return nil, 0, newInvalidDatabaseError("exceeded maximum data structure depth; database is likely corrupt")
+	}
 	typeNum, size, dataOffset, err := d.decodeCtrlData(offset)
 	if err != nil {
 		return nil, 0, err
@@ -672,7 +683,7 @@ func (d *decoder) decodeKey(offset uint) ([]byte, uint, error) {
 		if err != nil {
 			return nil, 0, err
 		}
-		key, _, err := d.decodeKey(pointer)
+		key, _, err := d.decodeKey(pointer, depth+1)
 		return key, ptrOffset, err
 	}
 	if typeNum != _String {
-- 
2.43.0


From a454d2d01a874d4c927eb0cbfd0ac91922027c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 08/64] fix: refuse awdb queries for addresses that are neither
 4 nor 16 bytes long

---
 db/format/awdb/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 676835e..70dd73c 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"reflect"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 )
 
@@ -235,6 +236,9 @@ func (r *Reader) lookupPointer(ip net.IP) (uint, int, net.IP, error) {
 	if ipV4Address != nil {
 		ip = ipV4Address
 	}
+	if len(ip) != net.IPv4len && len(ip) != net.IPv6len {
+		return 0, 0, ip, db.ErrIPFormat
+	}
 	if len(ip) == 16 && r.Metadata.IPVersion == 4 {
 		return 0, 0, ip, fmt.Errorf("error looking up '%s': you attempted to look up an IPv6 address in an IPv4-only database", ip.String())
 	}
-- 
2.43.0


From 7d514fabca1710103363e1ffc82c3380cf04d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 09/64] fix: map the awdb asnumber field so that dumps keep the
 ASN

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index ef5bdf6..7668f20 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -124,7 +124,7 @@ var CommonFieldsMap = map[string]string{
 	field.Province:  FieldProvince,
 	field.City:      FieldCity,
 	field.ISP:       FieldISP,
-	field.Asn:       field.Asn,
+	field.Asn:       FieldASNumber,
 	field.Continent: FieldContinent,
 	field.Line:      field.Line,
 }
-- 
2.43.0


From 4b9443b5e6275e43373a57c051e4f94a9140b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 10/64] fix: dump both families of a dual-stack database and
 step over the IPv4-mapped block

---
 db/field/export/export.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index d14f448..37de9c7 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -185,6 +185,8 @@ func ParseRule(rule string) inf.Exporter {
 	return ret
 }
 
+var afterIPv4Mapped = net.ParseIP("::1:0:0:0")
+
 func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter, version *inf.VersionInfo, find inf.Find) (*inf.IpData, error) {
 	var ret inf.IpData
 	var fieldsMap = make([]field.Pair, 0, len(fields))
@@ -232,9 +234,18 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
 		last := ipnet.LastIP(cidr)
 		if ipnet.IsAllMask(last) {
+			if version.IsIpAll() && len(last) == net.IPv4len {
+				// IPv4 is done, go on with IPv6
+				marker = net.IPv6zero
+				continue
+			}
 			break
 		}
 		marker = ipnet.NextStart(cidr)
+		if len(last) == net.IPv6len && marker.To4() != nil {
+			// the IPv4-mapped block ::ffff:0:0/96 is IPv4, go on behind it
+			marker = afterIPv4Mapped
+		}
 
 		prevInfo = values
 	}
-- 
2.43.0


From bc95cd9e790e12fb67df9f0a086d19e914755cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 11/64] fix: stop dumping a database that yields far more
 networks than its tree can hold

---
 db/field/export/export.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/db/field/export/export.go b/db/field/export/export.go
index 37de9c7..ae1f16d 100644
--- a/db/field/export/export.go
+++ b/db/field/export/export.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
@@ -231,6 +232,10 @@ func BuildIPData(fieldMap map[string]string, fields []string, ept inf.Exporter,
 			values = prevInfo
 		}
 
+		// n nodes have n+1 leaves, leave room for subtrees that are linked several times
+		if len(ret.Ips) > 64*(int(version.Count)+1) {
+			return nil, db.ErrDatabaseIsInvalid
+		}
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
 		last := ipnet.LastIP(cidr)
 		if ipnet.IsAllMask(last) {
-- 
2.43.0


From e7030fcac3b5b90b4e457fa86a613525c8fb0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 12/64] fix: refuse to pack an ipdb whose networks overlap with
 different values instead of dropping rows

---
 db/format/ipdb/packer.go |  4 +++-
 db/format/ipdb/writer.go | 45 ++++++++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/db/format/ipdb/packer.go b/db/format/ipdb/packer.go
index fb7d47b..39122ff 100644
--- a/db/format/ipdb/packer.go
+++ b/db/format/ipdb/packer.go
@@ -11,7 +11,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	w := NewWriter(*meta, nil)
 	// writer insert ipraw from ipd
 	for _, v := range ipd.Ips {
-		w.insert(v.Cidr, v.FieldValues)
+		if err := w.insert(v.Cidr, v.FieldValues); err != nil {
+			return err
+		}
 	}
 	return w.Save(writer)
 }
diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 9f64ac8..2007e88 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -110,16 +110,6 @@ func (p *Writer) Save(w io.Writer) error {
 
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
-	mask, _ := ipNet.Mask.Size()
-	node, index, ok := p.Nodes(ipNet.IP, mask)
-	if !ok {
-		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
-		return db.ErrInvalidCIDR
-	}
-	if p.node[node][index] > 0 {
-		log.Printf("cidr conflict %s %s\n", ipNet, values)
-		return db.ErrCIDRConflict
-	}
 	if p.continentOffset >= 0 {
 		switch values[p.continentOffset] {
 		case "亚洲":
@@ -139,10 +129,43 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		}
 	}
 	offset := p.Fields(values)
-	p.node[node][index] = -offset
+	mask, _ := ipNet.Mask.Size()
+	node, index, ok := p.Nodes(ipNet.IP, mask)
+	if !ok && p.node[node][index] == -offset {
+		// already covered by a network with the same values
+		return nil
+	}
+	if !ok {
+		log.Printf("load cidr failed cidr(%s) data(%s) node(%d) index(%d) preview data(%s)\n", ipNet, values, node, index, p.resolve(-p.node[node][index]))
+		return db.ErrInvalidCIDR
+	}
+	if !p.vacant(node, index, -offset) {
+		log.Printf("cidr conflict %s %s\n", ipNet, values)
+		return db.ErrCIDRConflict
+	}
+	p.fill(node, index, -offset)
 	return nil
 }
 
+// vacant 该位置(包括子节点)是否没有其他数据
+func (p *Writer) vacant(node, index, value int) bool {
+	n := p.node[node][index]
+	if n > 0 {
+		return p.vacant(n, 0, value) && p.vacant(n, 1, value)
+	}
+	return n == 0 || n == value
+}
+
+// fill 写入数据, 保留已有的子节点
+func (p *Writer) fill(node, index, value int) {
+	if n := p.node[node][index]; n > 0 {
+		p.fill(n, 0, value)
+		p.fill(n, 1, value)
+		return
+	}
+	p.node[node][index] = value
+}
+
 // resolve 解析数据
 func (p *Writer) resolve(offset int) string {
 	offset -= 8
-- 
2.43.0


From 19af517138ec35ef5c414a88e22b41098ec6dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 13/64] fix: do not translate the caller's continent values in
 place while packing an ipdb

---
 db/format/ipdb/writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 2007e88..f3c3c58 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -111,6 +111,8 @@ func (p *Writer) Save(w io.Writer) error {
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 	if p.continentOffset >= 0 {
+		// the values belong to the caller
+		values = append([]string(nil), values...)
 		switch values[p.continentOffset] {
 		case "亚洲":
 			values[p.continentOffset] = "AS"
-- 
2.43.0


From e5f8f131cf4aae8e86fe30e0307bd2d5c173c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 14/64] fix: pack the network ::/0 instead of panicking

---
 db/format/ipdb/writer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index f3c3c58..31278a3 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -131,7 +131,18 @@ func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
 		}
 	}
 	offset := p.Fields(values)
-	mask, _ := ipNet.Mask.Size()
+	mask, bits := ipNet.Mask.Size()
+	if mask == 0 && bits == 128 {
+		// the whole tree, the root has no slot of its own
+		for index := 0; index < 2; index++ {
+			if !p.vacant(0, index, -offset) {
+				log.Printf("cidr conflict %s %s\n", ipNet, values)
+				return db.ErrCIDRConflict
+			}
+			p.fill(0, index, -offset)
+		}
+		return nil
+	}
 	node, index, ok := p.Nodes(ipNet.IP, mask)
 	if !ok && p.node[node][index] == -offset {
 		// already covered by a network with the same values
-- 
2.43.0


From 23a3c75ae6e9584ddfb9346f8f76d271460aca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 15/64] fix: refuse rows an ipdb record cannot represent

---
 db/format/ipdb/writer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/db/format/ipdb/writer.go b/db/format/ipdb/writer.go
index 31278a3..91b194e 100644
--- a/db/format/ipdb/writer.go
+++ b/db/format/ipdb/writer.go
@@ -20,9 +20,11 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/json"
+	"fmt"
 	"github.com/qiniu/uip/db"
 	"io"
 	"log"
+	"math"
 	"net"
 	"strings"
 )
@@ -110,6 +112,19 @@ func (p *Writer) Save(w io.Writer) error {
 
 // insert 插入数据
 func (p *Writer) insert(ipNet *net.IPNet, values []string) error {
+	if len(values) != len(p.Meta.Fields) {
+		return db.ErrInvalidFieldsLength
+	}
+	size := len(values) - 1
+	for _, v := range values {
+		if strings.Contains(v, FieldsSep) {
+			return fmt.Errorf("value %q of %s contains the field separator", v, ipNet)
+		}
+		size += len(v)
+	}
+	if size > math.MaxUint16 {
+		return fmt.Errorf("record of %s is too long: %d bytes", ipNet, size)
+	}
 	if p.continentOffset >= 0 {
 		// the values belong to the caller
 		values = append([]string(nil), values...)
-- 
2.43.0


From 354a97d2715432bd1743b4d5da4634817fa27d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/64] fix: keep the values when a scan file is dumped without
 a rule

---
 db/format/plain/dumper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index bc140d3..9315938 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -119,6 +119,10 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 
 		if exporter != nil {
 			values = exporter.Export(fieldsMap, info)
+		} else {
+			for _, f := range t.Fields {
+				values = append(values, info[f])
+			}
 		}
 
 		if reflect.DeepEqual(values, prevInfo) {
-- 
2.43.0


From a53c3a66a105ad9c70888c254f013f2b48c2ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 17/64] fix: dump the scan lines behind the last address of a
 family too

---
 db/format/plain/dumper.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index 9315938..0d1483e 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -12,7 +12,6 @@ import (
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
-	"github.com/qiniu/uip/ipnet"
 )
 
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
@@ -130,10 +129,6 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		}
 
 		ret.Ips = append(ret.Ips, inf.IpRaw{Cidr: cidr, FieldValues: values})
-		last := ipnet.LastIP(cidr)
-		if ipnet.IsAllMask(last) {
-			break
-		}
 		prevInfo = values
 	}
 
-- 
2.43.0


From 06a26af5a8919bd7ee48bc45515c6f5d2b670fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 18/64] fix: refuse scan files with missing or malformed header
 lines and read lines of any length

---
 db/format/plain/dumper.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/db/format/plain/dumper.go b/db/format/plain/dumper.go
index 0d1483e..f266199 100644
--- a/db/format/plain/dumper.go
+++ b/db/format/plain/dumper.go
@@ -9,11 +9,14 @@ import (
 	"reflect"
 	"strings"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/field"
 	"github.com/qiniu/uip/db/field/export"
 	"github.com/qiniu/uip/db/inf"
 )
 
+const headerPrefix = "#### "
+
 func dump(data []byte, exporter inf.Exporter) (*inf.IpData, error) {
 	t, err := newDumper(data)
 	if err != nil {
@@ -37,8 +40,12 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	t := &traversal{}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	lineOffset := 0
 	for scanner.Scan() {
+		if lineOffset < 3 && !bytes.HasPrefix(scanner.Bytes(), []byte(headerPrefix)) {
+			return nil, errors.New("invalid header: " + scanner.Text())
+		}
 		if lineOffset == 0 {
 			// ignore title
 		} else if lineOffset == 1 {
@@ -47,16 +54,24 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 			if err != nil {
 				return nil, err
 			}
+			if t.Version == nil {
+				return nil, errors.New("invalid header: " + scanner.Text())
+			}
 		} else if lineOffset == 2 {
 			//	ignore prefix "#### "
 			b := scanner.Bytes()[5:]
 			t.Fields = strings.Split(string(b), ",")
-			t.lines = make([]string, 0, t.Version.Count+1)
 		} else {
 			t.lines = append(t.lines, scanner.Text())
 		}
 		lineOffset += 1
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if lineOffset < 3 {
+		return nil, db.ErrMetaNotFound
+	}
 	return t, nil
 }
 
@@ -107,7 +122,7 @@ func (t *traversal) Dump(exporter inf.Exporter) (*inf.IpData, error) {
 		ret.Fields = exporter.Fields()
 	}
 	fieldsMap = export.Select(fieldToMap(t.Fields), ret.Fields)
-	ret.Ips = make([]inf.IpRaw, 0, t.Version.Count+1)
+	ret.Ips = make([]inf.IpRaw, 0, len(t.lines))
 	var prevInfo []string
 	for _, line := range t.lines {
 		cidr, info, err := t.parseLine(line)
-- 
2.43.0


From bd8faadda28b3ae6224a76b9e92157f993a07eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 19/64] fix: do not replace commas in the caller's values while
 packing a scan

---
 db/format/plain/packer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 8ebffd1..72954a5 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -29,7 +29,10 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 }
 
 func replaceComma(s *inf.IpRaw) {
+	// the values belong to the caller
+	values := make([]string, len(s.FieldValues))
 	for i, v := range s.FieldValues {
-		s.FieldValues[i] = strings.Replace(v, ",", "_", -1)
+		values[i] = strings.Replace(v, ",", "_", -1)
 	}
+	s.FieldValues = values
 }
-- 
2.43.0


From 87488a0c0470e5bb39556aee18441ddf577d12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 20/64] fix: report failed header writes while packing a scan

---
 db/format/plain/packer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/db/format/plain/packer.go b/db/format/plain/packer.go
index 72954a5..4b2512e 100644
--- a/db/format/plain/packer.go
+++ b/db/format/plain/packer.go
@@ -15,9 +15,15 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String())
-	fmt.Fprintf(writer, "#### %s\n", string(verStr))
-	fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ","))
+	if _, err = fmt.Fprintf(writer, "#### scan dump %s ####\n", time.Now().String()); err != nil {
+		return err
+	}
+	if _, err = fmt.Fprintf(writer, "#### %s\n", string(verStr)); err != nil {
+		return err
+	}
+	if _, err = fmt.Fprintf(writer, "#### %s\n", strings.Join(ipd.Fields, ",")); err != nil {
+		return err
+	}
 	for _, v := range ipd.Ips {
 		replaceComma(&v)
 		_, err = fmt.Fprintf(writer, "%s\t%s\n", v.Cidr, strings.Join(v.FieldValues, ","))
-- 
2.43.0


From e9b3092b14aac9e20132a71b956beb81b5750e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 21/64] fix: pack an empty table to memip instead of panicking

---
 db/format/memip/packer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index f9e0330..ea729af 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -35,6 +35,9 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 			prev.f = values
 		}
 	}
+	if prev.r == nil {
+		return nil
+	}
 	ipRanges = append(ipRanges, prev)
 	for _, rf := range ipRanges {
 		view := strings.Join(rf.f, "-")
-- 
2.43.0


From 29037c362d81af804c47a99ab144dbc3ff81673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 22/64] fix: report failed writes while packing a memip

---
 db/format/memip/packer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/db/format/memip/packer.go b/db/format/memip/packer.go
index ea729af..0293bc9 100644
--- a/db/format/memip/packer.go
+++ b/db/format/memip/packer.go
@@ -40,11 +40,15 @@ func pack(ipd *inf.IpData, writer io.Writer) error {
 	}
 	ipRanges = append(ipRanges, prev)
 	for _, rf := range ipRanges {
+		var err error
 		view := strings.Join(rf.f, "-")
 		if ipd.Version.IsIpV4() {
-			fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
+			_, err = fmt.Fprintf(writer, "%d %d %s\n", ipnet.IPv4ToUint32(rf.r.Start), ipnet.IPv4ToUint32(rf.r.End), view)
 		} else {
-			fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+			_, err = fmt.Fprintf(writer, "%s %s %s\n", rf.r.Start.String(), rf.r.End.String(), view)
+		}
+		if err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From e71fd620cce90436a4c6c9478112c0dad3376203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 23/64] fix: refuse empty memip files, bad ranges and bad views
 and read lines of any length

---
 db/format/memip/dumper.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index f0685b5..c804e20 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
 	"github.com/qiniu/uip/ipnet"
 )
@@ -49,9 +50,16 @@ func newDumper(data []byte) (tRet *traversal, err error) {
 	}
 	bio := bytes.NewReader(data)
 	scanner := bufio.NewScanner(bio)
+	scanner.Buffer(nil, len(data)+1)
 	for scanner.Scan() {
 		t.lines = append(t.lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if len(t.lines) == 0 {
+		return nil, db.ErrEmptyFile
+	}
 	return t, nil
 }
 
@@ -95,8 +103,15 @@ func parseLine(line string) (*ipnet.Range, []string, error) {
 		rg = parseV4Range(array[0:2])
 	}
 
-	view := array[2]
-	return rg, splitView(view), nil
+	if rg == nil || ipnet.IPLess(rg.End, rg.Start) {
+		return nil, nil, errors.New("bad range:" + line)
+	}
+
+	view := splitView(array[2])
+	if len(view) != len(fields) {
+		return nil, nil, errors.New("bad view:" + line)
+	}
+	return rg, view, nil
 }
 
 type row struct {
-- 
2.43.0


From 026185a7679ef4a4d73242f298cccea6211318ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 24/64] fix: dump the memip lines behind the last IPv6 address
 too

---
 db/format/memip/dumper.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index c804e20..9b4b780 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -140,9 +140,6 @@ func (t *traversal) Dump(_ inf.Exporter) (*inf.IpData, error) {
 			values = prevInfo
 		}
 		rows = append(rows, row{rg: cidr, view: values})
-		if ipnet.IsAllMask(cidr.End) {
-			break
-		}
 		prevInfo = values
 	}
 	var ipd = inf.IpData{
-- 
2.43.0


From 64ef6798f86a3ef52821d9bf9da714eaaa7e21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 25/64] fix: unify ISPs wherever the columns stand,
 deterministically and never by an empty ASN

---
 db/field/operate/replace.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index c4944ed..28139cc 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -13,8 +13,11 @@ import (
 var mainIsp = []string{"电信", "联通", "移动", "铁通"}
 
 func asnMatchIsp(s string, set map[string]map[string]bool) string {
-	for k, v := range set {
-		if _, ok := v[s]; ok {
+	if s == "" {
+		return ""
+	}
+	for _, k := range mainIsp {
+		if set[k][s] {
 			return k
 		}
 	}
@@ -23,8 +26,7 @@ func asnMatchIsp(s string, set map[string]map[string]bool) string {
 
 // TrimAsnIspDup some small isp use main isp bonenet whose asn is same as main isp
 func TrimAsnIspDup(data *inf.IpData) {
-	var ispOffset int
-	var asnOffset int
+	ispOffset, asnOffset := -1, -1
 	for i, f := range data.Fields {
 		if f == field.ISP {
 			ispOffset = i
@@ -32,13 +34,13 @@ func TrimAsnIspDup(data *inf.IpData) {
 			asnOffset = i
 		}
 	}
-	if ispOffset == 0 {
+	if ispOffset == -1 {
 		return
 	}
 	var mainIspAsnMap = make(map[string]map[string]bool)
 	for _, row := range data.Ips {
 		isp := row.FieldValues[ispOffset]
-		if asnOffset == 0 {
+		if asnOffset == -1 {
 			continue
 		}
 		asn := row.FieldValues[asnOffset]
@@ -53,7 +55,7 @@ func TrimAsnIspDup(data *inf.IpData) {
 		}
 	}
 
-	if asnOffset == 0 {
+	if asnOffset == -1 {
 		return
 	}
 
-- 
2.43.0


From dc861a7608c780be540699364455eae18bad77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 26/64] fix: normalise every row once even when rows share
 their values

---
 db/field/operate/replace.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 28139cc..779173e 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -82,10 +82,16 @@ func ReplaceShortage(ipdata *inf.IpData) {
 		}
 	}
 	for k, row := range ipdata.Ips {
+		// rows may share their values, replace in a copy
+		var values []string
 		for i, v := range row.FieldValues {
 			if m, ok := offsets[i]; ok {
 				if v, ok := m[v]; ok {
-					ipdata.Ips[k].FieldValues[i] = v
+					if values == nil {
+						values = append(values, row.FieldValues...)
+						ipdata.Ips[k].FieldValues = values
+					}
+					values[i] = v
 				}
 			}
 		}
-- 
2.43.0


From b9292730b0df7a44083018b33f49b32b688661bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 27/64] fix: merge an empty table instead of panicking

---
 db/field/operate/replace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/field/operate/replace.go b/db/field/operate/replace.go
index 779173e..906ac53 100644
--- a/db/field/operate/replace.go
+++ b/db/field/operate/replace.go
@@ -126,7 +126,9 @@ func MergeNearNetwork(ipd *inf.IpData) {
 			prev.f = ip.FieldValues
 		}
 	}
-	ipRanges = append(ipRanges, prev)
+	if prev.r != nil {
+		ipRanges = append(ipRanges, prev)
+	}
 	ipd.Ips = make([]inf.IpRaw, 0, len(ipd.Ips))
 	for _, ipRange := range ipRanges {
 		subs := ipRange.r.IPNets()
-- 
2.43.0


From c7cfc8a1c1c95235e0d479ee4cd09f159863a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 28/64] fix: do not add a district or line column whose values
 cannot be determined

---
 db/field/operate/district.go | 9 ++++-----
 db/field/operate/line.go     | 8 ++++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index 682ade0..abddfd7 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -52,15 +52,14 @@ var provinceDistrict = map[string]string{
 }
 
 func AttachDistrict(data *inf.IpData) {
-	districtOffset := field.Offset(field.District, data.Fields)
-	if districtOffset == -1 {
-		data.Fields = append(data.Fields, field.District)
-	}
-
 	provinceOffset := field.Offset(field.Province, data.Fields)
 	if provinceOffset == -1 {
 		return
 	}
+	districtOffset := field.Offset(field.District, data.Fields)
+	if districtOffset == -1 {
+		data.Fields = append(data.Fields, field.District)
+	}
 
 	for k, row := range data.Ips {
 		var district string
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index 8d8291d..c599dbf 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -13,14 +13,14 @@ import (
 func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 	lineVer := fmt.Sprintf("%s-%d", line.VersionInfo().Version, line.VersionInfo().Build)
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, lineVer)
-	var lineOffset int
-	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
-		data.Fields = append(data.Fields, field.Line)
-	}
 	countryOffset := field.Offset(field.Country, data.Fields)
 	if countryOffset == -1 {
 		return
 	}
+	var lineOffset int
+	if lineOffset = field.Offset(field.Line, data.Fields); lineOffset == -1 {
+		data.Fields = append(data.Fields, field.Line)
+	}
 
 	for k, row := range data.Ips {
 		var ispline string
-- 
2.43.0


From 0bd9a62dec75f0686997fa0a863b59566aa89c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 29/64] fix: attach district and line per row even when rows
 share their values

---
 db/field/operate/district.go | 1 +
 db/field/operate/line.go     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/db/field/operate/district.go b/db/field/operate/district.go
index abddfd7..1ddad2e 100644
--- a/db/field/operate/district.go
+++ b/db/field/operate/district.go
@@ -66,6 +66,7 @@ func AttachDistrict(data *inf.IpData) {
 		if p := row.FieldValues[provinceOffset]; p != "" {
 			district = provinceDistrict[p]
 		}
+		row.FieldValues = copyValues(row.FieldValues)
 		if districtOffset == -1 {
 			row.FieldValues = append(row.FieldValues, district)
 		} else {
diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index c599dbf..cfa6879 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -10,6 +10,11 @@ import (
 	"github.com/qiniu/uip/db/inf"
 )
 
+// copyValues is for changing one row only, rows may share their values
+func copyValues(values []string) []string {
+	return append(make([]string, 0, len(values)+1), values...)
+}
+
 func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 	lineVer := fmt.Sprintf("%s-%d", line.VersionInfo().Version, line.VersionInfo().Build)
 	data.Version.ExtraInfo = append(data.Version.ExtraInfo, lineVer)
@@ -27,6 +32,7 @@ func AttachLineByCidr(data *inf.IpData, line inf.Query) {
 		if row.FieldValues[countryOffset] == "中国" {
 			ispline = queryLine(row.Cidr, line)
 		}
+		row.FieldValues = copyValues(row.FieldValues)
 		if lineOffset == -1 {
 			row.FieldValues = append(row.FieldValues, ispline)
 		} else {
@@ -110,6 +116,7 @@ func ReplaceLineByCidr(data *inf.IpData, line inf.Query) {
 			ispline = queryLine(row.Cidr, line)
 		}
 		if ispline != "" {
+			row.FieldValues = copyValues(row.FieldValues)
 			row.FieldValues[ispOffset] = ispline
 			data.Ips[k] = row
 		}
-- 
2.43.0


From 29145a4982dc0ee4421938651e8d6ca19c042ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 30/64] fix: attach the line of every row's own ASN and keep
 the table rectangular

---
 db/field/operate/line.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/db/field/operate/line.go b/db/field/operate/line.go
index cfa6879..b6507c9 100644
--- a/db/field/operate/line.go
+++ b/db/field/operate/line.go
@@ -54,26 +54,24 @@ func AttachLineByAsn(data *inf.IpData, asnLine map[string]string, asnLineVer str
 	if !field.InArray(field.Line, data.Fields) {
 		data.Fields = append(data.Fields, field.Line)
 		hasLine = true
-		lineOffset = len(data.Fields) - 1
-	} else {
-		for i, f := range data.Fields {
-			if f == field.Line {
-				lineOffset = i
-			} else if f == field.Asn {
-				asnOffset = i
-			}
+	}
+	for i, f := range data.Fields {
+		if f == field.Line {
+			lineOffset = i
+		} else if f == field.Asn {
+			asnOffset = i
 		}
 	}
 	for k, row := range data.Ips {
 		asn := row.FieldValues[asnOffset]
-		if line, ok := asnLine[asn]; ok {
-			if hasLine {
-				row.FieldValues = append(row.FieldValues, line)
-			} else if line == "" {
-				row.FieldValues[lineOffset] = line
-			}
-			data.Ips[k] = row
+		line, ok := asnLine[asn]
+		row.FieldValues = copyValues(row.FieldValues)
+		if hasLine {
+			row.FieldValues = append(row.FieldValues, line)
+		} else if ok {
+			row.FieldValues[lineOffset] = line
 		}
+		data.Ips[k] = row
 	}
 }
 
-- 
2.43.0


From be9f32c0c5f6fe573f82896f4488f151385dc2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 31/64] fix: leave existing files alone when the output format
 is unsupported and report a failed close

---
 db/convert/packer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/db/convert/packer.go b/db/convert/packer.go
index c676d96..cb02efa 100644
--- a/db/convert/packer.go
+++ b/db/convert/packer.go
@@ -13,13 +13,20 @@ import (
 )
 
 func PackFile(ipFile string, ipData *inf.IpData) error {
+	extend := path.Ext(ipFile)
+	if format.GetPackFormat(extend) == nil {
+		log.Println("Unsupported ip file format ", extend)
+		return db.ErrUnsupportedFormat
+	}
 	file, err := os.Create(ipFile)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-	extend := path.Ext(ipFile)
-	return PackWriter(extend, ipData, file)
+	err = PackWriter(extend, ipData, file)
+	if e := file.Close(); err == nil {
+		err = e
+	}
+	return err
 }
 
 func PackBytes(kind string, ipData *inf.IpData) ([]byte, error) {
-- 
2.43.0


From 04c0e7d0544f04408cec6150a956275a1b14302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 32/64] fix: range arithmetic at the highest address

---
 ipnet/ipnet.go | 2 +-
 ipnet/range.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipnet/ipnet.go b/ipnet/ipnet.go
index c42686d..defe753 100644
--- a/ipnet/ipnet.go
+++ b/ipnet/ipnet.go
@@ -34,5 +34,5 @@ func LastIP(ipNet *net.IPNet) net.IP {
 
 // Contains 检查IP区间内是否包含IP
 func Contains(start, end, ip net.IP) bool {
-	return !IPLess(ip, start) && IPLess(ip, NextIP(end))
+	return !IPLess(ip, start) && !IPLess(end, ip)
 }
diff --git a/ipnet/range.go b/ipnet/range.go
index aab6d33..55a8a45 100644
--- a/ipnet/range.go
+++ b/ipnet/range.go
@@ -39,7 +39,7 @@ func NewRange(ipNet *net.IPNet) *Range {
 // Join 合并网段
 func (r *Range) Join(r2 *Range) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(r2.Start, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.Start, r.Start) || IPLess(r.End, r2.Start) && !NextIP(r.End).Equal(r2.Start) {
 		return false
 	}
 
@@ -51,7 +51,7 @@ func (r *Range) Join(r2 *Range) bool {
 
 // CommonRange 求共同网段
 func (r *Range) CommonRange(ip net.IP, r2 *Range) bool {
-	if IPLess(r2.End, r.Start) || IPLess(NextIP(r.End), r2.Start) {
+	if IPLess(r2.End, r.Start) || IPLess(r.End, r2.Start) {
 		return false
 	}
 	start := r.Start
@@ -77,7 +77,7 @@ func (r *Range) Contains(ip net.IP) bool {
 // JoinIPNet 合并网段
 func (r *Range) JoinIPNet(ipNet *net.IPNet) bool {
 	// 禁止 起始IP小于原IP区间 或 IP区间不相邻 的IP区间合入
-	if IPLess(ipNet.IP.To16(), r.Start) || IPLess(NextIP(r.End), ipNet.IP.To16()) {
+	if IPLess(ipNet.IP.To16(), r.Start) || IPLess(r.End, ipNet.IP.To16()) && !NextIP(r.End).Equal(ipNet.IP) {
 		return false
 	}
 
-- 
2.43.0


From fd6be7c4735d0fc027240ea6860de5ec3be73a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 33/64] fix: keep continent names the Rust reader has no code
 for, like the Go reader

---
 rust/src/formats/ipdb/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index ad9b3ff..5e49368 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -165,7 +165,7 @@ impl Reader{
                         "AF" => info.continent = "非洲".to_string(),
                         "OC" => info.continent = "大洋洲".to_string(),
                         "AN" => info.continent = "南极洲".to_string(),
-                        _ => {}
+                        _ => info.continent = val[i].to_string(),
                     }
                 },
                 _ => {}
-- 
2.43.0


From 81f0f4a4cf1e292e91781c549d29eb8722c05331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 34/64] fix: honour the language offset in the Rust reader and
 refuse short records

---
 rust/src/formats/ipdb/reader.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 5e49368..c70268b 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -193,7 +193,7 @@ impl Reader{
         let off = self.meta.languages.get(lang);
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
-            Some(_) => {
+            Some(&off) => {
                 let resolved = node - self.node_count + self.node_count * 8;
                 if resolved >= self.file_size {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
@@ -207,8 +207,13 @@ impl Reader{
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
                 let str = String::from_utf8_lossy(&self.data[resolved  + 2..resolved  + 2 + size ]);
-                let a = str.split("\t");
-                let r = a.map(|i| i.to_string()).collect();
+                let a: Vec<&str> = str.split("\t").collect();
+                let fields = self.meta.fields.len();
+                if off < 0 || a.len() < fields || off as usize > a.len() - fields {
+                    return Err(Error::new(ErrorKind::InvalidData, "database record error"));
+                }
+                let off = off as usize;
+                let r = a[off..off + fields].iter().map(|i| i.to_string()).collect();
                 Ok(r)
             }
         }
-- 
2.43.0


From 5d519d936dfd8382802532422a6d9c2e3ca7b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 35/64] fix: report addresses without data as not found in the
 Rust reader

---
 rust/src/formats/ipdb/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index c70268b..1340b35 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -229,13 +229,13 @@ impl Reader{
         if self.ipv4_bits_cache.len()>0 && bit == 32 {
             let index = Self::bytes_to_index(b);
             node = self.ipv4_bits_cache[index as usize];
-            if node >= self.node_count {
+            if node > self.node_count {
                 return Ok(node);
             }
             i = CACHE_DEPTH;
         }
         node = self.read_depth(node, bit as i32, i, b);
-        if node >= self.node_count {
+        if node > self.node_count {
             return Ok(node);
         }
 
-- 
2.43.0


From 24656d96f6eb53ca87a6b8bf3d40927d50c7dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 36/64] fix: answer IPv4-mapped addresses as IPv4 in the Rust
 reader

---
 rust/src/formats/ipdb/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 1340b35..0b53150 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -175,6 +175,12 @@ impl Reader{
     }
 
     fn find0(&self, ip: &[u8]) -> Result<i32> {
+        // an IPv4-mapped address is the IPv4 address it denotes
+        let ip = if ip.len() == 16 && ip[..10] == [0; 10] && ip[10..12] == [0xff, 0xff] {
+            &ip[12..]
+        } else {
+            ip
+        };
         if ip.len() == 16 {
             if !self.is_ipv6() {
                 return Err(Error::new(ErrorKind::InvalidData, "no support ipv6"));
-- 
2.43.0


From 8b44897d8f7a94edd4eb2be6a35c788dcd27dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 37/64] fix: refuse corrupt ipdb files in the Rust reader
 instead of panicking

---
 rust/src/formats/ipdb/reader.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rust/src/formats/ipdb/reader.rs b/rust/src/formats/ipdb/reader.rs
index 0b53150..49fe72c 100644
--- a/rust/src/formats/ipdb/reader.rs
+++ b/rust/src/formats/ipdb/reader.rs
@@ -28,7 +28,7 @@ impl MetaData {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < 4"));
         }
 
-        let meta_size = BigEndian::read_i32(&buf[0..4]) as usize;
+        let meta_size = BigEndian::read_u32(&buf[0..4]) as usize;
         let end = meta_size + 4;
         if buf.len() < end {
             return Err(Error::new(ErrorKind::InvalidData, "meta data length < meta_size"));
@@ -50,7 +50,6 @@ const CACHE_DEPTH: i32 = 12;
 
 pub struct Reader {
     pub meta: MetaData,
-    file_size: i32,
     node_count: i32,
     data: Vec<u8>,
     v4_offset: i32,
@@ -61,13 +60,15 @@ pub struct Reader {
 impl Reader{
     pub fn new(bytes: &[u8]) -> Result<Reader> {
         let m = MetaData::new(&bytes)?;
-        if m.total_size + m.meta_size as i32 +4 != bytes.len() as i32 {
+        if m.total_size as i64 + m.meta_size as i64 + 4 != bytes.len() as i64 {
             return Err(Error::new(ErrorKind::InvalidData, "invalid data length"));
         }
+        if m.node_count < 0 || m.node_count as i64 * 8 > m.total_size as i64 {
+            return Err(Error::new(ErrorKind::InvalidData, "invalid node count"));
+        }
         let data = (&bytes[m.meta_size + 4..]).to_vec();
 
         let mut reader = Reader {
-            file_size: bytes.len() as i32,
             node_count: m.node_count,
             v4_offset: 0,
             ipv4_bits_cache: Vec::with_capacity(1<<CACHE_DEPTH),
@@ -78,14 +79,14 @@ impl Reader{
         if reader.is_ipv4() {
             let mut node = 0;
             for i in 0..96 {
+                if node >= reader.node_count {
+                    break;
+                }
                 if i >= 80 {
                     node = reader.read_node(node, 1);
                 } else {
                     node = reader.read_node(node, 0);
                 }
-                if node >= reader.node_count {
-                    break;
-                }
             }
             reader.v4_offset = node;
             reader.init_cache()
@@ -97,7 +98,8 @@ impl Reader{
 
     fn read_node(&self, node: i32, index:i32) -> i32 {
         let off = node * 8 + index * 4;
-        BigEndian::read_i32(&self.data[off as usize..off as usize + 4])
+        // larger values point behind the end of any database
+        BigEndian::read_u32(&self.data[off as usize..off as usize + 4]).min(i32::MAX as u32) as i32
     }
 
     fn init_cache(&mut self) {
@@ -200,8 +202,8 @@ impl Reader{
         match off {
             None => return Err(Error::new(ErrorKind::InvalidData, "invalid language")),
             Some(&off) => {
-                let resolved = node - self.node_count + self.node_count * 8;
-                if resolved >= self.file_size {
+                let resolved = node as i64 - self.node_count as i64 + self.node_count as i64 * 8;
+                if resolved + 2 > self.data.len() as i64 {
                     return Err(Error::new(ErrorKind::InvalidData, "database resolve error"));
                 }
 
-- 
2.43.0


From eb3302657bbfd9a326708699cd1e93a1dab50768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 38/64] fix: do not report the ASN as line in the Java reader

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 4c2e854..7981e9b 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -132,6 +132,7 @@ final class Reader {
                     break;
                 case "asn":
                     info.asn = parts[i];
+                    break;
                 case "line":
                     info.line = parts[i];
                     break;
-- 
2.43.0


From 50021b69325bf97d83a25140ac3328951a0cebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 39/64] fix: report addresses without data as not found in the
 Java reader

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 7981e9b..afed688 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -97,7 +97,8 @@ final class Reader {
             try {
                 query(ip, false, true);
             } catch (Exception e) {
-                e.printStackTrace();
+                // nothing to cache for this address
+                continue;
             }
         }
     }
@@ -209,7 +210,7 @@ final class Reader {
         try {
             node = this.findNode(ip);
         } catch (NotFoundException nfe) {
-            return 0;
+            throw new IPFormatException(nfe.getMessage());
         }
 
         return node;
@@ -273,13 +274,13 @@ final class Reader {
         if (ipv4BitsCache != null && bit == 32) {
             int index = bytesToIndex(binary);
             node = ipv4BitsCache[index];
-            if (node >= this.nodeCount) {
+            if (node > this.nodeCount) {
                 return node;
             }
             i = cacheDepth;
         }
         node = readDepth(node, bit, i, binary);
-        if (node >= this.nodeCount) {
+        if (node > this.nodeCount) {
             return node;
         }
 
-- 
2.43.0


From 324289db0b69ff3d1227081672ca19e05f88f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 40/64] fix: accept IPv6 addresses that start with a colon in
 the Java reader

---
 java/src/main/java/qiniu/uip/db/Query.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index fec5376..1dc4cf7 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -51,7 +51,7 @@ public final class Query {
             throw new IPFormatException("ip is empty");
         }
 
-        if (addr.indexOf(":") > 0) {
+        if (addr.indexOf(":") >= 0) {
             ipv = IPAddress.textToNumericFormatV6(addr);
             if (ipv == null) {
                 throw new IPFormatException("ipv6 format error");
-- 
2.43.0


From ffde7050083c09f877a4e79e1ca27b5fb7654f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 41/64] fix: answer IPv4-mapped addresses as IPv4 in the Java
 reader

---
 .../main/java/qiniu/uip/db/format/ipdb/Reader.java   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index afed688..39c5777 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -192,7 +192,19 @@ final class Reader {
         }
     }
 
+    private static boolean isIPv4Mapped(byte[] ip) {
+        for (int i = 0; i < 10; i++) {
+            if (ip[i] != 0) {
+                return false;
+            }
+        }
+        return ip[10] == (byte) 0xFF && ip[11] == (byte) 0xFF;
+    }
+
     int find0(byte[] ip) throws IPFormatException, InvalidDatabaseException {
+        if (ip.length == 16 && isIPv4Mapped(ip)) {
+            ip = Arrays.copyOfRange(ip, 12, 16);
+        }
         if (ip.length == 16) {
             if (!isIPv6()) {
                 throw new IPFormatException("no support ipv6");
-- 
2.43.0


From 02d358cd4c985f5ce360e9bb51a721c7a79c4b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 42/64] fix: refuse corrupt ipdb files in the Java reader with
 its declared exception

---
 .../java/qiniu/uip/db/format/ipdb/Reader.java | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 39c5777..69e60a5 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -38,6 +38,9 @@ final class Reader {
         );
 
         try {
+            if (metaLength > this.fileSize - 4) {
+                throw new InvalidDatabaseException("database file size error");
+            }
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
 
@@ -52,6 +55,10 @@ final class Reader {
         if ((meta.total_size + Long.valueOf(metaLength).intValue() + 4) != this.data.length) {
             throw new InvalidDatabaseException("database file size error");
         }
+        if (this.nodeCount < 0 || this.nodeCount > meta.total_size / 8
+                || meta.fields == null || meta.fields.length == 0 || Arrays.asList(meta.fields).contains(null)) {
+            throw new InvalidDatabaseException("database metadata error");
+        }
 
         this.data = Arrays.copyOfRange(this.data, Long.valueOf(metaLength).intValue() + 4, this.fileSize);
 
@@ -242,10 +249,11 @@ final class Reader {
             return null;
         }
 
-        final int resolved = node - this.nodeCount + this.nodeCount * 8;
-        if (resolved >= this.fileSize) {
+        final long position = (long) node - this.nodeCount + this.nodeCount * 8L;
+        if (position + 2 > this.data.length) {
             throw new InvalidDatabaseException("database resolve error");
         }
+        final int resolved = (int) position;
 
         byte b = 0;
         int size = Long.valueOf(bytesToLong(
@@ -260,7 +268,11 @@ final class Reader {
         }
 
         final String data = new String(this.data, resolved + 2, size, StandardCharsets.UTF_8);
-        return Arrays.copyOfRange(data.split("\t", this.meta.fields.length * this.meta.languages.size()), off, off + this.meta.fields.length);
+        final String[] parts = data.split("\t", -1);
+        if (off < 0 || off > parts.length - this.meta.fields.length) {
+            throw new InvalidDatabaseException("database record error");
+        }
+        return Arrays.copyOfRange(parts, off, off + this.meta.fields.length);
     }
 
     private int readDepth(int node, int depth, int i, byte[] binary) {
@@ -302,12 +314,13 @@ final class Reader {
     private int readNode(int node, int index) {
         int off = node * 8 + index * 4;
 
-        return Long.valueOf(bytesToLong(
+        // larger values point behind the end of any database
+        return (int) Math.min(Integer.MAX_VALUE, bytesToLong(
                 this.data[off],
                 this.data[off + 1],
                 this.data[off + 2],
                 this.data[off + 3]
-        )).intValue();
+        ));
     }
 
     boolean isIPv4() {
-- 
2.43.0


From c3591048991750918424e57c0d0cd6d4311bcae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 43/64] fix: print the usage instead of panicking when command
 arguments are missing

---
 cmd/server/main.go | 4 ++++
 cmd/simple/main.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 973fde5..4b1fa83 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -10,6 +10,10 @@ import (
 )
 
 func main() {
+	if len(os.Args) < 3 {
+		log.Println("usage:", os.Args[0], "<database file> <listen address>")
+		return
+	}
 	f := os.Args[1]
 	addr := os.Args[2]
 
diff --git a/cmd/simple/main.go b/cmd/simple/main.go
index 82eeb67..526144e 100644
--- a/cmd/simple/main.go
+++ b/cmd/simple/main.go
@@ -12,6 +12,10 @@ import (
 )
 
 func main() {
+	if len(os.Args) < 3 {
+		log.Println("usage:", os.Args[0], "<database file> <ip>|version")
+		return
+	}
 	f := os.Args[1]
 	ip := os.Args[2]
 
-- 
2.43.0


From 01618475310d8fddd0d3cf69b5ae97d8361f42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 44/64] fix: take the IP family of a memip file from its
 addresses only

---
 db/format/memip/dumper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/format/memip/dumper.go b/db/format/memip/dumper.go
index 9b4b780..b5cc178 100644
--- a/db/format/memip/dumper.go
+++ b/db/format/memip/dumper.go
@@ -120,7 +120,9 @@ type row struct {
 }
 
 func (t *traversal) ipVer() inf.IpType {
-	if strings.Contains(t.lines[0], ":") {
+	// the values may contain colons as well
+	start, _, _ := strings.Cut(t.lines[0], " ")
+	if strings.Contains(start, ":") {
 		return inf.IpV6
 	}
 	return inf.IpV4
-- 
2.43.0


From d4dd48108321efd2a0efae783612b7c45938ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 45/64] fix: hand out a copy of the cached result in the Java
 reader

---
 java/src/main/java/qiniu/uip/db/IpInfo.java        | 14 ++++++++++++++
 .../main/java/qiniu/uip/db/format/ipdb/Reader.java |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/IpInfo.java b/java/src/main/java/qiniu/uip/db/IpInfo.java
index 1a4f5a3..9fa1ab5 100644
--- a/java/src/main/java/qiniu/uip/db/IpInfo.java
+++ b/java/src/main/java/qiniu/uip/db/IpInfo.java
@@ -10,6 +10,20 @@ public final class IpInfo {
     public String continent;
     public String line;
 
+    public IpInfo() {
+    }
+
+    public IpInfo(IpInfo other) {
+        country = other.country;
+        district = other.district;
+        province = other.province;
+        city = other.city;
+        asn = other.asn;
+        isp = other.isp;
+        continent = other.continent;
+        line = other.line;
+    }
+
     public String toString() {
         return String.format("country: %s, district: %s, province: %s, city: %s, asn: %s, isp: %s, continent: %s, line: %s", country, district, province, city, asn, isp, continent, line);
     }
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 69e60a5..c7d3af0 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -115,7 +115,8 @@ final class Reader {
         if (cache && this.resultCache != null) {
             IpInfo info = this.resultCache.get(node);
             if (info != null) {
-                return info;
+                // the caller may change its result
+                return new IpInfo(info);
             }
         }
         String[] parts = resolveNode(node, "CN");
-- 
2.43.0


From 742d02931190ec1439114b21bc671ddd4f00825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 46/64] fix: decode the ipdb metadata as UTF-8 in the Java
 reader on every platform

---
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index c7d3af0..1bc38aa 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -44,7 +44,7 @@ final class Reader {
             int end = Long.valueOf(metaLength).intValue() + 4;
             byte[] metaBytes = Arrays.copyOfRange(this.data, 4, end);
 
-            MetaData meta = Json.parseObject(new String(metaBytes), MetaData.class);
+            MetaData meta = Json.parseObject(new String(metaBytes, StandardCharsets.UTF_8), MetaData.class);
 
             this.nodeCount = meta.node_count;
             this.meta = meta;
-- 
2.43.0


From 21746f9f2ff6072706a09e6051245992d60375cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 47/64] fix: accept build times behind 2038 in the Java reader

---
 java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java | 2 +-
 java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java b/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java
index c23cfb5..a124fc8 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/MetaData.java
@@ -4,7 +4,7 @@ import java.util.Map;
 
 @SuppressWarnings("checkstyle:MemberName")
 public final class MetaData {
-    public int build;
+    public long build;
     public int ip_version;
     public int node_count;
     public Map<String, Integer> languages;
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
index 1bc38aa..9efb0e3 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java
@@ -332,7 +332,7 @@ final class Reader {
         return (this.meta.ip_version & 0x02) == 0x02;
     }
 
-    int getBuildUTCTime() {
+    long getBuildUTCTime() {
         return this.meta.build;
     }
 
-- 
2.43.0


From d79cfbe5952be67a062b6acd9c1d3da16cf0101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 48/64] fix: ignore the unused control bits of four byte awdb
 pointers

---
 db/format/awdb/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index bc24632..2907005 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -79,7 +79,8 @@ func (d *decoder) decodeCtrlData(offset uint) (dataType, uint, uint, error) {
 
 func (d *decoder) sizeFromCtrlByte(ctrlByte byte, offset uint, typeNum dataType) (uint, uint, error) {
 	size := uint(ctrlByte & 0x1f)
-	if typeNum == _Extended {
+	// the size bits of a pointer are no size
+	if typeNum == _Extended || typeNum == _Pointer {
 		return size, offset, nil
 	}
 
-- 
2.43.0


From 527e59c81fe6abd6e6c5ee312aef441e6014ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 49/64] fix: load normalisation tables that have a line over 64
 KB

---
 db/field/data/load.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/field/data/load.go b/db/field/data/load.go
index de0c3a2..5383a29 100644
--- a/db/field/data/load.go
+++ b/db/field/data/load.go
@@ -12,6 +12,8 @@ var NormalizedMap = make(map[string]map[string]string)
 func parseData(data string) map[string]string {
 	m := make(map[string]string)
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	// lines may be longer than the default limit
+	scanner.Buffer(nil, len(data)+1)
 	for scanner.Scan() {
 		line := scanner.Bytes()
 		if len(line) == 0 {
-- 
2.43.0


From 3bdeb83969dfdfb94ad974b9fda569b0dd00c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 50/64] fix: close the database file after reading it in the
 Java reader

---
 java/src/main/java/qiniu/uip/util/File.java | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/java/src/main/java/qiniu/uip/util/File.java b/java/src/main/java/qiniu/uip/util/File.java
index f197ef4..8f595ef 100644
--- a/java/src/main/java/qiniu/uip/util/File.java
+++ b/java/src/main/java/qiniu/uip/util/File.java
@@ -9,15 +9,16 @@ public final class File {
     }
 
     public static byte[] readAll(String path) throws IOException {
-        FileInputStream in = new FileInputStream(path);
-        ByteArrayOutputStream out = new ByteArrayOutputStream();
-        byte[] buffer = new byte[16384];
-        int n;
-        while ((n = in.read(buffer)) != -1) {
-            out.write(buffer, 0, n);
+        try (FileInputStream in = new FileInputStream(path)) {
+            ByteArrayOutputStream out = new ByteArrayOutputStream();
+            byte[] buffer = new byte[16384];
+            int n;
+            while ((n = in.read(buffer)) != -1) {
+                out.write(buffer, 0, n);
+            }
+            byte[] b = out.toByteArray();
+            return b;
         }
-        byte[] b = out.toByteArray();
-        return b;
     }
 
 
-- 
2.43.0


From 63c0a09e2930763608929c6a3174ca0c92401934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 51/64] fix: refuse file names without an extension in the Java
 reader

---
 java/src/main/java/qiniu/uip/db/Query.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/src/main/java/qiniu/uip/db/Query.java b/java/src/main/java/qiniu/uip/db/Query.java
index 1dc4cf7..d475098 100644
--- a/java/src/main/java/qiniu/uip/db/Query.java
+++ b/java/src/main/java/qiniu/uip/db/Query.java
@@ -23,7 +23,8 @@ public final class Query {
     }
 
     public static Query create(String filename) throws IOException {
-        String ext = filename.substring(filename.lastIndexOf("."));
+        int dot = filename.lastIndexOf(".");
+        String ext = dot < 0 ? "" : filename.substring(dot);
         byte[] data = File.readAll(filename);
         return create(data, ext);
     }
-- 
2.43.0


From 3ffe9c0c026538fd1370715baadf2873677ce8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 52/64] fix: refuse awdb values that are skipped but reach
 behind the data

---
 db/format/awdb/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 2907005..3c452a0 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -721,6 +721,9 @@ func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error)
 	case _Bool:
 	default:
 		offset += size
+		if offset > uint(len(d.buffer)) {
+			return 0, newOffsetError()
+		}
 	}
 	return d.nextValueOffset(offset, numberToSkip-1)
 }
-- 
2.43.0


From a04daa1f93b0a857464402785ef6fb34af613b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 53/64] fix: skip awdb values without a stack frame for each of
 them

---
 db/format/awdb/decoder.go | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 3c452a0..69f2af4 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -701,29 +701,29 @@ func (d *decoder) decodeKey(offset uint, depth int) ([]byte, uint, error) {
 // the one at the offset passed in. The size bits have different meanings for
 // different data types
 func (d *decoder) nextValueOffset(offset uint, numberToSkip uint) (uint, error) {
-	if numberToSkip == 0 {
-		return offset, nil
-	}
-	typeNum, size, offset, err := d.decodeCtrlData(offset)
-	if err != nil {
-		return 0, err
-	}
-	switch typeNum {
-	case _Pointer:
-		_, offset, err = d.decodePointer(size, offset)
+	for ; numberToSkip > 0; numberToSkip-- {
+		typeNum, size, newOffset, err := d.decodeCtrlData(offset)
 		if err != nil {
 			return 0, err
 		}
-	case _Map:
-		numberToSkip += 2 * size
-	case _Slice:
-		numberToSkip += size
-	case _Bool:
-	default:
-		offset += size
-		if offset > uint(len(d.buffer)) {
-			return 0, newOffsetError()
+		offset = newOffset
+		switch typeNum {
+		case _Pointer:
+			_, offset, err = d.decodePointer(size, offset)
+			if err != nil {
+				return 0, err
+			}
+		case _Map:
+			numberToSkip += 2 * size
+		case _Slice:
+			numberToSkip += size
+		case _Bool:
+		default:
+			offset += size
+			if offset > uint(len(d.buffer)) {
+				return 0, newOffsetError()
+			}
 		}
 	}
-	return d.nextValueOffset(offset, numberToSkip-1)
+	return offset, nil
 }
-- 
2.43.0


From c6b61b0d175bc7881dc8c04cf0958ec5ac554b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 54/64] fix: decode each value of an awdb map on its own

The element was kept from key to key, so that maps, structs and pointers in
a map[string]T were shared among the keys or kept fields of the key before.
---
 db/format/awdb/decoder.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 69f2af4..a96c653 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -474,8 +474,6 @@ func (d *decoder) decodeMap(
 	mapType := result.Type()
 	keyValue := reflect.New(mapType.Key()).Elem()
 	elemType := mapType.Elem()
-	elemKind := elemType.Kind()
-	var elemValue reflect.Value
 	for i := uint(0); i < size; i++ {
 		var key []byte
 		var err error
@@ -485,10 +483,8 @@ func (d *decoder) decodeMap(
 			return 0, err
 		}
 
-		if !elemValue.IsValid() || elemKind == reflect.Interface {
-			elemValue = reflect.New(elemType).Elem()
-		}
-
+		// a value of its own for each key, nothing is shared or carried over
+		elemValue := reflect.New(elemType).Elem()
 		offset, err = d.decode(offset, elemValue, depth)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 639d9e9bc3ca0fe3f7e21d50c091791cbebc434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 55/64] fix: refuse awdb integers that change sign in the
 result

A negative int32 decoded into a uint64 and an unsigned value above the
int64 range decoded into an int64 came out as other numbers.
---
 db/format/awdb/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index a96c653..65c8e96 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -284,7 +284,7 @@ func (d *decoder) unmarshalInt32(size uint, offset uint, result reflect.Value) (
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		n := uint64(value)
-		if !result.OverflowUint(n) {
+		if value >= 0 && !result.OverflowUint(n) {
 			result.SetUint(n)
 			return newOffset, nil
 		}
@@ -388,7 +388,7 @@ func (d *decoder) unmarshalUint(size uint, offset uint, result reflect.Value, ui
 	switch result.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		n := int64(value)
-		if !result.OverflowInt(n) {
+		if value <= math.MaxInt64 && !result.OverflowInt(n) {
 			result.SetInt(n)
 			return newOffset, nil
 		}
-- 
2.43.0


From 038f8ed1c8a426ea4d879d8c146dd76b6d81bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 56/64] fix: enumerate awdb networks by their own addresses

Within a network that has host bits or lies in a larger one of the file the
addresses were not masked, and the first network shared its address with
the caller's network or with the package's 0.0.0.0/0 and ::/0.
---
 db/format/awdb/traverse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index 889ba3d..ceea290 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -58,6 +58,9 @@ func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 	}
 
 	pointer, bit := r.traverseTree(ip, 0, uint(prefixLength))
+	// the walk may end above the prefix, and what Network returns must not
+	// be the caller's address
+	ip = ip.Mask(net.CIDRMask(bit, len(ip)*8))
 	return &Networks{
 		reader: r,
 		nodes: []netNode{
-- 
2.43.0


From 972a08288ab1da918db3ee8fad5cf35fb4714b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 57/64] fix: refuse to decode an awdb map into a big.Int

It was taken for a struct without matching fields and left at zero, without
the type error that is promised for a result that cannot hold the value.
---
 db/format/awdb/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 65c8e96..3ae92ac 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -312,6 +312,10 @@ func (d *decoder) unmarshalMap(
 	default:
 		return 0, newUnmarshalTypeError("map", result.Type())
 	case reflect.Struct:
+		// a number, not a set of fields
+		if result.Type() == bigIntType {
+			return 0, newUnmarshalTypeError("map", result.Type())
+		}
 		return d.decodeStruct(size, offset, result, depth)
 	case reflect.Map:
 		return d.decodeMap(size, offset, result, depth)
-- 
2.43.0


From a75db8a14976fb95b14c09e9239858451d33fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 58/64] fix: ipdb files with counts of 2^31 and more do not
 crash 32 bit builds, and large trees keep their answers there

---
 db/format/ipdb/reader.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 180e901..7d28792 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -25,6 +25,7 @@ import (
 	"encoding/json"
 	db2 "github.com/qiniu/uip/db"
 	"github.com/qiniu/uip/db/inf"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -39,7 +40,7 @@ type reader struct {
 	meta            MetaData
 	data            []byte
 	continentOffset int
-	ipV4BitsCache   []uint
+	ipV4BitsCache   []uint64
 }
 
 const cacheDepth = 14
@@ -51,7 +52,7 @@ func newReaderFromBytes(data []byte) (*reader, error) {
 		return nil, db2.ErrFileSize
 	}
 	metaLength := int(binary.BigEndian.Uint32(data[0:4]))
-	if len(data) < (4 + metaLength) {
+	if metaLength < 0 || metaLength > len(data)-4 {
 		return nil, db2.ErrFileSize
 	}
 	if err := json.Unmarshal(data[4:4+metaLength], &meta); err != nil {
@@ -108,7 +109,7 @@ func bytesToIndex(b []byte) int {
 func (db *reader) setCache(i int) {
 	b := indexToBytes(i)
 	node, off := db.readDepth(db.v4offset, cacheDepth, 0, b)
-	db.ipV4BitsCache[i] = (uint(node) << iOff) | uint(off)
+	db.ipV4BitsCache[i] = (uint64(node) << iOff) | uint64(off)
 }
 
 func (db *reader) getCache(ip net.IP) (int, int) {
@@ -119,7 +120,7 @@ func (db *reader) getCache(ip net.IP) (int, int) {
 }
 
 func (db *reader) initBitsCache() {
-	db.ipV4BitsCache = make([]uint, 1<<cacheDepth)
+	db.ipV4BitsCache = make([]uint64, 1<<cacheDepth)
 	//construct cache from binary trie tree for reduce read memory time
 	for i := 0; i < len(db.ipV4BitsCache); i++ {
 		db.setCache(i)
@@ -255,14 +256,19 @@ func (db *reader) readDepth(node int, depth int, i int, ip []byte) (int, int) {
 
 func (db *reader) readNode(node, indexBit int) int {
 	off := node*8 + indexBit*4
-	return int(binary.BigEndian.Uint32(db.data[off : off+4]))
+	next := binary.BigEndian.Uint32(db.data[off : off+4])
+	if int(next) < 0 {
+		// more than an int holds where it has 32 bits, and so past the data
+		return math.MaxInt32
+	}
+	return int(next)
 }
 
 func (db *reader) resolve(node int) ([]byte, error) {
-	resolved := node - db.nodeCount + db.nodeCount*8
-	if resolved+2 > len(db.data) {
+	if node-db.nodeCount > len(db.data)-2-db.nodeCount*8 {
 		return nil, db2.ErrDatabaseError
 	}
+	resolved := node - db.nodeCount + db.nodeCount*8
 
 	size := int(binary.BigEndian.Uint16(db.data[resolved : resolved+2]))
 	if (resolved + 2 + size) > len(db.data) {
-- 
2.43.0


From 32689bbdba7cee518e0c64da8da2c31620a1e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 59/64] fix: the languages of an ipdb are listed in one order

---
 db/format/ipdb/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 7d28792..911b650 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -27,6 +27,7 @@ import (
 	"github.com/qiniu/uip/db/inf"
 	"math"
 	"net"
+	"sort"
 	"strings"
 	"time"
 	"unsafe"
@@ -288,6 +289,7 @@ func (db *reader) Languages() []string {
 	for k := range db.meta.Languages {
 		ls = append(ls, k)
 	}
+	sort.Strings(ls)
 	return ls
 }
 func (db *reader) HasIPv4() bool {
-- 
2.43.0


From 94a4fbb18615c4c4d34209704a8f470f70a0ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 60/64] fix: callers get their own languages and extra
 information in the version, not the database's

---
 db/format/awdb/reader.go                              | 2 +-
 db/format/ipdb/reader.go                              | 2 +-
 java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/format/awdb/reader.go b/db/format/awdb/reader.go
index 70dd73c..4ea1743 100644
--- a/db/format/awdb/reader.go
+++ b/db/format/awdb/reader.go
@@ -303,7 +303,7 @@ func (r *Reader) version() *inf.VersionInfo {
 		Count:     uint32(r.Metadata.NodeCount),
 		Build:     int64(r.Metadata.BuildEpoch),
 		Version:   "ipplus360" + r.Metadata.DatabaseType,
-		Languages: r.Metadata.Languages,
+		Languages: append(r.Metadata.Languages[:0:0], r.Metadata.Languages...),
 		ExtraInfo: nil,
 	}
 }
diff --git a/db/format/ipdb/reader.go b/db/format/ipdb/reader.go
index 911b650..5cfddf2 100644
--- a/db/format/ipdb/reader.go
+++ b/db/format/ipdb/reader.go
@@ -314,6 +314,6 @@ func (db *reader) version() *inf.VersionInfo {
 		Build:     db.meta.Build,
 		Version:   version,
 		Languages: db.Languages(),
-		ExtraInfo: db.meta.Extra,
+		ExtraInfo: append(db.meta.Extra[:0:0], db.meta.Extra...),
 	}
 }
diff --git a/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java b/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
index dcf8b47..bb868d9 100644
--- a/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
+++ b/java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java
@@ -40,7 +40,7 @@ public final class Ipdb implements Query {
         versionInfo.build = reader.meta.build;
         versionInfo.version = version;
         versionInfo.languages = new String[]{"CN"};
-        versionInfo.extraInfo = reader.meta.extra;
+        versionInfo.extraInfo = reader.meta.extra == null ? null : reader.meta.extra.clone();
         return versionInfo;
     }
 
-- 
2.43.0


From 9214f4dad5bf8f763af54a1228df0835966e5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:18 +0000
Subject: [PATCH 61/64] fix: 32 bit builds refuse an awdb file whose build
 epoch needs more than 32 bits

---
 db/format/awdb/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/format/awdb/fields.go b/db/format/awdb/fields.go
index 7668f20..114c1b9 100644
--- a/db/format/awdb/fields.go
+++ b/db/format/awdb/fields.go
@@ -28,7 +28,7 @@ import (
 type Metadata struct {
 	BinaryFormatMajorVersion uint              `awdb:"binary_format_major_version"`
 	BinaryFormatMinorVersion uint              `awdb:"binary_format_minor_version"`
-	BuildEpoch               uint              `awdb:"build_epoch"`
+	BuildEpoch               uint64            `awdb:"build_epoch"`
 	DatabaseType             string            `awdb:"database_type"`
 	Description              map[string]string `awdb:"description"`
 	IPVersion                uint              `awdb:"ip_version"`
-- 
2.43.0


From cc887794e19a442cad44f595f7be3319b3958d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:29 +0000
Subject: [PATCH 62/64] fix: enumerating a small corrupt awdb file whose nodes
 share empty subtrees took for ever

---
 db/format/awdb/traverse.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index ceea290..b4a938c 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -9,6 +9,10 @@ type netNode struct {
 	ip      net.IP
 	bit     uint
 	pointer uint
+	// leave marks the end of a node's subtree, in front of which the iterator
+	// had found this many networks.
+	leave bool
+	found uint64
 }
 
 // Networks represents a set of subnets that we are iterating over.
@@ -16,6 +20,8 @@ type Networks struct {
 	reader   *Reader
 	nodes    []netNode // Nodes we still have to visit.
 	lastNode netNode
+	found    uint64        // Networks found so far.
+	empty    map[uint]bool // Nodes without a network below them.
 	err      error
 }
 
@@ -80,10 +86,21 @@ func (n *Networks) Next() bool {
 	for len(n.nodes) > 0 {
 		node := n.nodes[len(n.nodes)-1]
 		n.nodes = n.nodes[:len(n.nodes)-1]
+		if node.leave {
+			// a corrupt file may share an empty subtree any number of times
+			if node.found == n.found {
+				if n.empty == nil {
+					n.empty = make(map[uint]bool)
+				}
+				n.empty[node.pointer] = true
+			}
+			continue
+		}
 
-		for node.pointer != n.reader.Metadata.NodeCount {
+		for node.pointer != n.reader.Metadata.NodeCount && !n.empty[node.pointer] {
 			if node.pointer > n.reader.Metadata.NodeCount {
 				n.lastNode = node
+				n.found++
 				return true
 			}
 			ipRight := make(net.IP, len(node.ip))
@@ -100,6 +117,10 @@ func (n *Networks) Next() bool {
 
 			node.bit++
 			n.nodes = append(n.nodes, netNode{
+				pointer: node.pointer,
+				leave:   true,
+				found:   n.found,
+			}, netNode{
 				pointer: rightPointer,
 				ip:      ipRight,
 				bit:     node.bit,
-- 
2.43.0


From 4606ae73202e989c3aa4c55c12c0a5f66041a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:17 +0000
Subject: [PATCH 63/64] fix: NetworksWithin walked the wrong tree for IPv4
 networks in IPv6 files and for IPv6 networks in IPv4 files

---
 db/format/awdb/traverse.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/db/format/awdb/traverse.go b/db/format/awdb/traverse.go
index b4a938c..3f83bdd 100644
--- a/db/format/awdb/traverse.go
+++ b/db/format/awdb/traverse.go
@@ -1,7 +1,10 @@
 package awdb
 
 import (
+	"fmt"
 	"net"
+
+	"github.com/qiniu/uip/db"
 )
 
 // Internal structure used to keep track of nodes we still need to visit.
@@ -56,14 +59,28 @@ func (r *Reader) Networks() *Networks {
 // iterator will iterate over exactly one network, the containing network.
 func (r *Reader) NetworksWithin(network *net.IPNet) *Networks {
 	ip := network.IP
-	prefixLength, _ := network.Mask.Size()
+	prefixLength, bits := network.Mask.Size()
+	if ip4 := ip.To4(); ip4 != nil && bits == 8*net.IPv4len {
+		ip = ip4
+	}
+	if bits == 0 || len(ip)*8 != bits {
+		return &Networks{reader: r, err: fmt.Errorf("error getting networks within '%v': %w", network, db.ErrIPFormat)}
+	}
+	if len(ip) == net.IPv6len && r.Metadata.IPVersion == 4 {
+		return &Networks{reader: r, err: fmt.Errorf("error getting networks within '%v': you attempted to use an IPv6 network in an IPv4-only database", network)}
+	}
 
-	if r.Metadata.IPVersion == 6 && len(ip) == net.IPv4len {
-		ip = net.IP.To16(ip)
-		prefixLength += 96
+	var start uint
+	if len(ip) == net.IPv4len {
+		// where a lookup starts
+		start = r.ipv4Start
+		if r.ipv4StartBitDepth < 96 && r.Metadata.IPVersion == 6 {
+			// all of IPv4 is within one network
+			start, ip, prefixLength = 0, make(net.IP, net.IPv6len), r.ipv4StartBitDepth
+		}
 	}
 
-	pointer, bit := r.traverseTree(ip, 0, uint(prefixLength))
+	pointer, bit := r.traverseTree(ip, start, uint(prefixLength))
 	// the walk may end above the prefix, and what Network returns must not
 	// be the caller's address
 	ip = ip.Mask(net.CIDRMask(bit, len(ip)*8))
-- 
2.43.0


From c27a6d45569e0f252b7a374ee7cf59f0bb4696f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:44 +0000
Subject: [PATCH 64/64] fix: reading an awdb record into a struct with
 unexported fields or a map without string keys panicked

---
 db/format/awdb/decoder.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/db/format/awdb/decoder.go b/db/format/awdb/decoder.go
index 3ae92ac..4a660fc 100644
--- a/db/format/awdb/decoder.go
+++ b/db/format/awdb/decoder.go
@@ -471,11 +471,14 @@ func (d *decoder) decodeMap(
 	result reflect.Value,
 	depth int,
 ) (uint, error) {
+	mapType := result.Type()
+	if mapType.Key().Kind() != reflect.String {
+		return 0, newUnmarshalTypeError("map", mapType)
+	}
 	if result.IsNil() {
-		result.Set(reflect.MakeMapWithSize(result.Type(), int(size)))
+		result.Set(reflect.MakeMapWithSize(mapType, int(size)))
 	}
 
-	mapType := result.Type()
 	keyValue := reflect.New(mapType.Key()).Elem()
 	elemType := mapType.Elem()
 	for i := uint(0); i < size; i++ {
@@ -567,7 +570,12 @@ func (d *decoder) decodeStruct(
 
 	// This fills in embedded structs
 	for _, i := range fields.anonymousFields {
-		_, err := d.unmarshalMap(size, offset, result.Field(i), depth)
+		embedded := result.Field(i)
+		if embedded.Kind() == reflect.Ptr && embedded.IsNil() && !embedded.CanSet() {
+			// of an unexported type, only the caller can create it
+			continue
+		}
+		_, err := d.unmarshalMap(size, offset, embedded, depth)
 		if err != nil {
 			return 0, err
 		}
@@ -629,7 +637,17 @@ func cachedFields(result reflect.Value) *fieldsType {
 			fieldName = tag
 		}
 		if field.Anonymous {
-			anonymous = append(anonymous, i)
+			t := field.Type
+			if t.Kind() == reflect.Ptr {
+				t = t.Elem()
+			}
+			if field.IsExported() || t.Kind() == reflect.Struct {
+				anonymous = append(anonymous, i)
+			}
+			continue
+		}
+		if !field.IsExported() {
+			// cannot be set
 			continue
 		}
 		namedFields[fieldName] = i
-- 
2.43.0

