#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

NOT = "The repository's tests of db/query return at once because no database file is shipped, so no lookup is ever executed by the suite; "

prop("C01", "IPDB lookup returns exactly the record of the covering network",
 "For every well-formed ipdb database (IPv4, IPv6 or dual-stack, any field list, field order and record contents) and every address of a family it supports, a query returns exactly the field values stored under language CN for the network covering that address, with the continent codes AS EU NA SA AF OC AN translated to their Chinese names, together with that network's prefix length in the address's own family. If no network covers the address the query returns an error and no result. The byte, text and 32-bit-integer entry points give the same answer for the same address, and an IPv4-mapped IPv6 address is answered as the IPv4 address it denotes.",
 ["inputs"], "all well-formed ipdb files x all addresses of a supported family",
 NOT + "correctness depends on every trie shape (leaves above, at and below the depth-14 IPv4 shortcut table, gaps, leaves above the IPv4 subtree) and every address, which samples cannot settle.",
 ["db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/query/query.go", "db/query/cache.go", "db/inf/db_inf.go"],
 [("trie walk and 14-bit IPv4 shortcut table", "db/format/ipdb/reader.go: search, readDepth, initBitsCache, getCache"),
  ("record decode, language offset, continent translation", "db/format/ipdb/reader.go: resolve, decodeInfo"),
  ("field-name to result mapping", "db/format/ipdb/querier.go: QueryInternal")],
 [("ipV4BitsCache", "packed (trie node, depth) reached by the first 14 bits of an IPv4 address", "db/format/ipdb/reader.go")],
 ["query.Db.Query", "query.Db.QueryStr", "query.Db.QueryU32"])

prop("C02", "AWDB lookup returns exactly the record of the covering network",
 "For every well-formed awdb database (24-, 28- or 32-bit node records, IPv4 or IPv6 tree, any legal encoding of the record's string values including all length classes and pointers) and every address it supports, a query returns exactly the country, province, city, isp, asnumber, continent and line values stored for the network covering that address (absent ones empty), and that network's prefix length. If no network covers the address the query returns an error and no result.",
 ["inputs"], "all well-formed awdb files (an IPv4 file covers 8.8.8.8, the loader's own sanity probe) x all supported addresses",
 "No test opens an awdb file at all; correctness ranges over three node encodings, every pointer/length encoding and every tree shape.",
 ["db/format/awdb/reader.go", "db/format/awdb/node.go", "db/format/awdb/decoder.go", "db/format/awdb/querier.go", "db/format/awdb/fields.go"],
 [("node record readers for 24/28/32 bits", "db/format/awdb/node.go"),
  ("tree traversal and IPv4 start", "db/format/awdb/reader.go: traverseTree, setIPv4Start, lookupPointer"),
  ("typed data decoding, pointers, size classes", "db/format/awdb/decoder.go")],
 [], ["query.Db.Query", "query.Db.QueryStr", "query.Db.QueryU32"])

prop("C03", "Answers do not depend on query history, warm-up or callers' use of results",
 "For one opened database, the answer to a query depends only on the address: it is the same before and after any sequence of other queries, repeated queries, warm-up cache fills with any address list and version lookups, and whether or not the address was part of a warm-up list. A caller that modifies a returned result or returned version information changes no later answer or report. Other databases opened before or after, even from the same path with new contents, make no difference.",
 ["histories", "inputs"], "all databases x all sequences of queries, warm-ups, version lookups and in-place edits of returned results",
 NOT + "a property of arbitrary operation sequences over the warm-up cache cannot be sampled by single-call tests.",
 ["db/format/ipdb/querier.go", "db/query/query.go", "db/query/cache.go", "db/format/awdb/querier.go"],
 [("result cache keyed by data node", "db/format/ipdb/querier.go: BuildCache, QueryInternal"), ("warm-up list", "db/query/cache.go")],
 [("queryCache", "decoded results of warmed-up records", "db/format/ipdb/querier.go")],
 ["query.Db.Query", "inf.Query.BuildCache"])

prop("C04", "Concurrent use is race-free and equals sequential use",
 "Any number of goroutines may query the same opened database (ipdb or awdb), read its version, decode its records through a shared awdb reader, and open, dump or pack other databases at the same time: there is no data race, no crash, and every answer equals the one the same call gives when run alone.",
 ["schedules", "histories"], "all interleavings of concurrent queries, version reads, opens, dumps and packs",
 "No test uses more than one goroutine and the suite is not run under the race detector; the claim ranges over schedules.",
 ["db/format/ipdb/querier.go", "db/format/ipdb/reader.go", "db/format/awdb/decoder.go", "db/format/awdb/reader.go", "db/query/query.go", "db/format/formats.go", "db/field/data/load.go"],
 [("read-only reader state after open", "db/format/ipdb/reader.go, db/format/awdb/reader.go"), ("struct-field cache in a sync.Map", "db/format/awdb/decoder.go: cachedFields"), ("cache filled before publication", "db/query/query.go: NewDbFromBytes")],
 [("fieldsMap", "process-wide reflection cache", "db/format/awdb/decoder.go"), ("NormalizedMap", "process-wide normalisation tables", "db/field/data/load.go")],
 ["query.Db", "convert.DumpFile", "convert.PackBytes"])

prop("C05", "Unanswerable requests are errors, never results or crashes",
 "A query for text that is not an IP address, for a byte address whose length is neither 4 nor 16 (including nil), for an address family the database does not hold, or against a database without the CN language returns a non-nil error and no result, for every database. Opening a file that cannot be read or whose extension has no registered reader, dumping from or packing to an unregistered extension, returns an error instead of crashing.",
 ["inputs"], "all invalid or unsupported addresses x all databases; all unreadable or unsupported files",
 NOT + "error paths are never executed by the suite.",
 ["db/query/query.go", "db/format/ipdb/querier.go", "db/format/ipdb/reader.go", "db/format/awdb/reader.go", "db/format/awdb/querier.go", "db/convert/dumper.go", "db/convert/packer.go", "db/errors.go"],
 [("address family dispatch", "db/format/ipdb/reader.go: find0; db/format/awdb/reader.go: lookupPointer"), ("open errors", "db/query/query.go: NewDb")],
 [], ["query.NewDb", "query.Db.Query", "query.Db.QueryStr", "convert.DumpFile", "convert.PackBytes"])

prop("C06", "Corrupt binary databases never crash, hang or exhaust the process",
 "For every byte string offered as an ipdb or awdb database (truncated, bit-flipped, spliced, with inconsistent counts, offsets or lengths, or with self-referencing pointers), opening it for query or dump and then querying any address either succeeds or returns an error. It never panics, never aborts the process, and uses time and memory bounded by the input's size.",
 ["inputs"], "all byte strings, in particular all corruptions of well-formed databases",
 "No test offers any database bytes; robustness ranges over all malformed inputs.",
 ["db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/format/awdb/reader.go", "db/format/awdb/decoder.go", "db/format/awdb/node.go", "db/field/export/export.go"],
 [("header and size validation", "db/format/ipdb/reader.go: newReaderFromBytes; db/format/awdb/reader.go: FromBytes"), ("bounds checks while decoding", "db/format/ipdb/reader.go: resolve; db/format/awdb/decoder.go"), ("depth limit", "db/format/awdb/decoder.go: decode")],
 [], ["query.NewDbFromBytes", "query.Db.Query", "format.GetDumpFormat"])

prop("C07", "Malformed text databases are refused whole, never crashed on or cut short",
 "For every byte string offered as a scan or memip text database, dumping it either returns one row set representing every data line of the file or returns an error: it never panics and never silently drops, truncates or mis-splits lines. In particular empty input, missing or short header lines, unparsable addresses or ranges, reversed ranges, wrong column counts and arbitrarily long lines are handled this way.",
 ["inputs"], "all byte strings offered as .scan or .memip input",
 "No test reads either text format.",
 ["db/format/plain/dumper.go", "db/format/memip/dumper.go"],
 [("line scanning and header parsing", "db/format/plain/dumper.go: newDumper, parseLine; db/format/memip/dumper.go: newDumper, parseLine")],
 [], ["format.GetDumpFormat(\".scan\")", "format.GetDumpFormat(\".memip\")", "convert.DumpFile"])

prop("C08", "A packed ipdb answers every address with what was packed",
 "For every set of pairwise disjoint networks (IPv4, IPv6 or both; any prefix length from 0 to full; IPv4 networks in 4- or 16-byte form; any insertion order) with tab-free field values of at most 65535 bytes per record, packing to ipdb succeeds and the resulting database, opened for query, returns for every address covered by an input network exactly that network's values, and a no-data error for every address no network covers. Field names are stored so that country, province, city, isp, asn, continent, line and district come back under the same meaning (continent codes come back translated, as every ipdb lookup does). The file itself holds every column, those the library does not look up included, with the values packed.",
 ["inputs"], "all sets of disjoint networks x all insertion orders x all field lists and values x all addresses",
 "No test packs anything.",
 ["db/format/ipdb/writer.go", "db/format/ipdb/packer.go", "db/format/ipdb/fields.go", "db/convert/packer.go"],
 [("trie construction", "db/format/ipdb/writer.go: Nodes, insert"), ("record dedup and offsets", "db/format/ipdb/writer.go: Fields, Save"), ("field renaming", "db/format/ipdb/fields.go: covertFields")],
 [("node", "growing trie: >0 child, <0 data offset, 0 empty", "db/format/ipdb/writer.go")],
 ["convert.PackBytes(\".ipdb\")", "query.Db.Query"])

prop("C09", "A dump covers every address exactly once and agrees with queries",
 "Dumping any ipdb or awdb database that answers every address of its family (or both families when dual-stack) yields ascending, pairwise disjoint networks that together cover each family exactly once (the IPv4-mapped block of IPv6 excepted), each row carrying exactly the values a query of any address in that network returns; without an export rule the columns are the common fields the database holds. The dump always terminates, and a database that leaves part of its address space unanswered is refused with an error rather than dumped incompletely.",
 ["inputs"], "all well-formed ipdb and awdb databases",
 "No test dumps a database; the claim quantifies over every address of the dumped space.",
 ["db/field/export/export.go", "db/format/ipdb/dumper.go", "db/format/ipdb/reader.go", "db/format/awdb/dumper.go", "db/format/awdb/fields.go", "ipnet/ipnet.go", "ipnet/ip.go"],
 [("marker walk over consecutive networks", "db/field/export/export.go: BuildIPData"), ("network of an address", "db/format/ipdb/reader.go: findMap; db/format/awdb/reader.go: cidr")],
 [("marker", "next address not yet dumped", "db/field/export/export.go")],
 ["format.GetDumpFormat(\".ipdb\")", "format.GetDumpFormat(\".awdb\")", "convert.DumpFile"])

prop("C10", "End-to-end conversion preserves what every address resolves to",
 "Converting any fully answering ipdb, awdb or scan database through the standard pipeline (export rule, name normalisation, ISP unification, merging, optional line attachment, district attachment) into ipdb or scan yields a database in which every source address of the IP families the source states resolves exactly to its source record after those documented field-wise steps, and nothing else changes. Chaining conversions through intermediate formats gives the same result as converting directly.",
 ["inputs", "configurations"], "all source databases x rules x operation lists x output formats x chains of formats",
 "No test runs a conversion; the guarantee composes six stages over all addresses.",
 ["db/convert/dumper.go", "db/convert/packer.go", "db/field/export/export.go", "db/field/operate/operate.go", "db/field/operate/replace.go", "db/field/operate/line.go", "db/field/operate/district.go", "db/format/ipdb/writer.go", "db/format/plain/packer.go", "db/format/plain/dumper.go"],
 [("stage composition", "db/convert/dumper.go: DumpFile; db/convert/packer.go: PackWriter")],
 [], ["convert.DumpFile", "convert.PackFile", "query.Db.Query"])

prop("C11", "Scan text round-trips networks, fields and values",
 "For every table of networks and field values free of tabs and line breaks, packing to the scan text format and dumping the text back yields the same networks in the same order with the same field names and the same values, except that a comma inside a value becomes an underscore. Dumping without a rule yields all fields; version information survives unchanged.",
 ["inputs"], "all tables (IPv4, IPv6, mixed; empty values; long values) packed to .scan and dumped back",
 "No test touches the scan format.",
 ["db/format/plain/packer.go", "db/format/plain/dumper.go"],
 [("text writer", "db/format/plain/packer.go: pack"), ("text reader", "db/format/plain/dumper.go")],
 [], ["convert.PackBytes(\".scan\")", "format.GetDumpFormat(\".scan\")"])

prop("C12", "Memip text preserves each address's view",
 "For every IPv4 or IPv6 table of disjoint networks in ascending order (values free of spaces, dashes and line breaks), packing to memip and dumping back maps every covered address to its province, district, ISP, country and continent as the memip view defines them (missing, empty or 保留-prefixed values become 默认, continent codes become names, ISPs other than 电信/联通/移动 become 其他, Hong Kong, Macau and Taiwan have district 默认) and covers no other address. Adjacent networks with the same view (city aside) are written as one range.",
 ["inputs"], "all disjoint ascending tables x all addresses",
 "No test touches the memip format.",
 ["db/format/memip/packer.go", "db/format/memip/dumper.go", "db/format/memip/init.go"],
 [("range joining and view building", "db/format/memip/packer.go: pack, covertValues"), ("range parsing and CIDR expansion", "db/format/memip/dumper.go")],
 [], ["convert.PackBytes(\".memip\")", "format.GetDumpFormat(\".memip\")"])

prop("C13", "Export rules select columns and blank fields exactly as documented",
 "For every export rule and every ipdb, awdb or scan source, the dumped columns are exactly the fields of the rule's first group in order (a field the source lacks is an empty column), and for each following group \"key=v1/v2:fields\" (or \"key=!v1/v2:fields\" for no match), applied in order, a row whose key value matches keeps only the listed fields and has all others blanked while other rows are untouched. A group that is malformed or names a field outside the first group has no effect.",
 ["inputs", "configurations"], "all rule strings x all records",
 "The one test of this package does not compile at the pinned commit; rules are a small language whose inputs are unbounded.",
 ["db/field/export/export.go", "db/format/plain/dumper.go", "db/field/fields.go"],
 [("rule parser", "db/field/export/export.go: ParseRule, buildFilter"), ("row filter", "db/field/export/export.go: match, extract, Export")],
 [], ["export.ParseRule", "inf.Exporter.Export", "format.GetDumpFormat"])

prop("C14", "Normalisation rewrites values only by table and by matching ASN",
 "Name normalisation replaces a value exactly when the table loaded for its field lists it, by the listed replacement, once, independently of other rows and of how rows are stored. ISP unification changes only the ISP column, and only for a row whose ISP is not one of the four main ISPs and whose non-empty ASN also occurs on a row of a main ISP, setting it to such a main ISP; this holds wherever the columns stand, and repeating the operation on the same data gives the same result.",
 ["inputs", "configurations"], "all tables, column positions, row sharing patterns and loaded normalisation tables",
 "No test exercises the operations; in-place edits of shared rows and map iteration order make outcomes vary beyond sampled inputs.",
 ["db/field/operate/replace.go", "db/field/data/load.go", "db/field/data/city.go", "db/field/data/province.go", "db/field/data/isp.go"],
 [("table replacement", "db/field/operate/replace.go: ReplaceShortage"), ("ASN matching", "db/field/operate/replace.go: TrimAsnIspDup"), ("table loading", "db/field/data/load.go: Load")],
 [("NormalizedMap", "field -> value -> replacement", "db/field/data/load.go")],
 ["operate.ReplaceShortage", "operate.TrimAsnIspDup", "data.Load"])

prop("C15", "Merging neighbouring networks changes no address and is minimal",
 "Merging the networks of any ascending disjoint table (including an empty one) keeps the value list of every address exactly, adds and loses no address, keeps the order, and yields the fewest CIDR networks that can represent it: each maximal run of consecutive adjacent networks with equal values becomes its minimal CIDR cover. The recorded row count equals the number of networks after merging.",
 ["inputs"], "all ascending disjoint IPv4 and IPv6 tables",
 "No test calls the merge; correctness is a statement about all addresses and all run shapes.",
 ["db/field/operate/replace.go", "ipnet/range.go"],
 [("run detection", "db/field/operate/replace.go: MergeNearNetwork"), ("range to CIDR", "ipnet/range.go: IPNets, JoinIPNet")],
 [], ["operate.MergeNearNetwork"])

prop("C16", "District and line attachment act per row and keep the table rectangular",
 "After attaching districts, line information by network, line information by ASN, or replacing ISPs by line, every row has exactly one value per field whatever columns were present, and each row's new value depends only on that row: the district of its own province, the line the line database gives for its own network's first address (first component; 电信, 联通 and 移动 kept, 铁通 becomes 移动, any other becomes 电信; empty outside 中国 or when unknown), or the line listed for its own ASN. Rows and columns not addressed keep their values, even when rows share storage. The version information gains one entry of extra information naming the version (and build) of the line data attached, and keeps everything else.",
 ["inputs", "configurations"], "all tables, column sets and positions, row sharing patterns and line databases",
 "No test calls these operations; the failures need shared rows or missing columns.",
 ["db/field/operate/district.go", "db/field/operate/line.go"],
 [("district table", "db/field/operate/district.go: provinceDistrict, AttachDistrict"), ("line lookup", "db/field/operate/line.go: queryLine, AttachLineByCidr, ReplaceLineByCidr, AttachLineByAsn")],
 [], ["operate.AttachDistrict", "operate.AttachLineByCidr", "operate.ReplaceLineByCidr", "operate.AttachLineByAsn"])

prop("C17", "Packing leaves its input untouched and is deterministic",
 "Packing a table to any format leaves the table (fields, version, networks and values) unchanged, so the outputs of one conversion do not depend on the order or number of output formats. Packing the same table twice gives the same output except for the embedded creation time.",
 ["inputs", "histories"], "all tables x all sequences of output formats",
 "No test packs anything, let alone twice.",
 ["db/format/plain/packer.go", "db/format/ipdb/packer.go", "db/format/ipdb/writer.go", "db/format/memip/packer.go", "db/convert/packer.go"],
 [("writers", "db/format/plain/packer.go: replaceComma; db/format/ipdb/writer.go: insert")],
 [], ["convert.PackBytes", "convert.PackWriter"])

prop("C18", "A write failure is always reported by packing",
 "If any write to the destination fails while a table is packed to ipdb, scan or memip (first, last or any intermediate write, once or persistently, including a full device), packing returns a non-nil error; it reports success only if every byte of the complete output was accepted. Packing to an unsupported extension returns an error without creating the file or altering an existing one.",
 ["fault_sequences", "inputs"], "all tables x every write call and byte position at which the destination can fail",
 "No test packs anything or injects a fault.",
 ["db/format/memip/packer.go", "db/format/plain/packer.go", "db/format/ipdb/writer.go", "db/convert/packer.go"],
 [("error propagation", "db/format/ipdb/writer.go: Save; db/format/plain/packer.go: pack; db/format/memip/packer.go: pack; db/convert/packer.go: PackFile")],
 [], ["convert.PackWriter", "convert.PackFile"])

prop("C19", "Data an ipdb cannot represent is refused, not silently corrupted",
 "Packing to ipdb a table in which two networks overlap with different values, a row has a different number of values than there are fields, a value contains the column separator (tab), or a record is longer than the format's 65535-byte limit returns an error. It never reports success for a database that would answer some address differently from the table. Networks that overlap or repeat with equal values are no conflict.",
 ["inputs"], "all tables containing an overlap, a ragged row, a separator in a value or an oversized record, at any position",
 "No test packs anything.",
 ["db/format/ipdb/writer.go", "db/format/ipdb/packer.go"],
 [("conflict detection", "db/format/ipdb/writer.go: insert, Nodes"), ("record encoding", "db/format/ipdb/writer.go: Fields, IntToBinaryBE")],
 [], ["convert.PackBytes(\".ipdb\")"])

prop("C20", "A range expands to exactly its minimal CIDR cover",
 "For every IPv4 or IPv6 address range with start not after end (including ranges touching the lowest and highest address), expanding it to networks yields ascending, aligned, disjoint networks whose union is exactly the range and whose number is the smallest possible. Turning a network into a range and back yields the same network.",
 ["inputs"], "all start<=end pairs in both families",
 "Tests check four hand-picked ranges; alignment and boundary cases are unbounded.",
 ["ipnet/range.go", "ipnet/ip.go", "ipnet/ipnet.go"],
 [("greedy prefix choice", "ipnet/range.go: IPNets, PrefixSameLength, SuffixZeroLength")],
 [], ["ipnet.Range.IPNets", "ipnet.NewRange"])

prop("C21", "Range and address arithmetic follow set and integer semantics",
 "For all addresses and ranges of one family, including the lowest and highest address: containment holds exactly between the ends inclusive; joining succeeds exactly when the second range starts inside or directly after the first and then yields their union, otherwise nothing changes; intersecting around an address succeeds exactly when both ranges contain it and then yields the intersection, otherwise nothing changes. Successor, last-address, ordering, all-ones, first-address, prefix-length, CIDR construction and integer conversion functions agree with integer arithmetic on the address, and 4-byte and 16-byte forms of an IPv4 address compare alike.",
 ["inputs"], "all addresses and range pairs of one family",
 "Tests check a dozen hand-picked values and no boundary at the top of the address space.",
 ["ipnet/range.go", "ipnet/ip.go", "ipnet/ipnet.go"],
 [("range algebra", "ipnet/range.go: Join, JoinIPNet, CommonRange"), ("address arithmetic", "ipnet/ip.go: NextIP, IPLess; ipnet/ipnet.go: LastIP, Contains")],
 [], ["ipnet package API"])

prop("C22", "Version metadata is reported faithfully and survives conversion",
 "The version information reported for an opened or dumped database states the IP families, node count, build time, version string, languages and extra information its file records (a database without version string gets one derived from its build date), and opening and dumping the same bytes report the same information. Packing to ipdb keeps IP families, version string and extra information; packing to scan keeps everything.",
 ["inputs"], "all databases and version records",
 "No test reads version information.",
 ["db/format/ipdb/reader.go", "db/format/ipdb/fields.go", "db/format/awdb/reader.go", "db/format/awdb/fields.go", "db/inf/db_inf.go", "db/format/plain/dumper.go", "db/format/plain/packer.go"],
 [("metadata mapping", "db/format/ipdb/reader.go: version; db/format/ipdb/fields.go: buildMeta; db/format/awdb/reader.go: version")],
 [], ["query.Db.VersionInfo", "inf.IpData.Version"])

prop("C23", "The HTTP server answers each address with the library's result",
 "For every database served and every request path, the server replies to /<address> with status 200 and a JSON body of exactly the non-empty fields the library returns for that address, with status 404 and no result when the library returns an error, and to /version with the database's version information. This holds for any number of concurrent clients, without data races, and bad requests never stop the server.",
 ["inputs", "schedules"], "all databases x all request paths x all interleavings of concurrent clients",
 "No test starts the server.",
 ["cmd/server/server.go", "cmd/server/main.go", "db/inf/db_inf.go", "db/query/query.go"],
 [("request handlers", "cmd/server/server.go: ListenAndServe")],
 [], ["HTTP responses of the built cmd/server binary"])

prop("C24", "The command-line tools deliver the library's results",
 "For every input database, rule (the README's example rule unless another is given) and option combination, the converter command writes every listed output, each holding exactly what the library pipeline (normalise, unify ISPs, merge, optional line attachment or replacement, attach district, pack) produces for that format, independently of the order of the outputs. The query command prints the library's result for the given address, and neither command crashes on bad input.",
 ["inputs", "configurations"], "all input databases x rules x line options x output lists",
 "No test runs the commands.",
 ["cmd/converter/main.go", "cmd/simple/main.go"],
 [("option handling and stage order", "cmd/converter/main.go"), ("query printing", "cmd/simple/main.go")],
 [], ["files written by the built cmd/converter binary", "output of the built cmd/simple binary"])

prop("C25", "The Rust reader gives the same answers as the Go reader",
 "For every well-formed ipdb database (including those this library packs) and every address, the Rust library returns the same country, district, province, city, asn, isp, continent and line as the Go library, and returns an error exactly when the Go library does (text that the Go library refuses is refused); byte, text and integer entry points agree and an IPv4-mapped address is answered as its IPv4 address. The version information it states (IP families, node count, build time, recorded version string, extra information) is the same, too. Where nodes or records of the file are damaged, it still answers the addresses the Go library answers, with the same values (as far as they are valid UTF-8), and refuses the others. It never panics on such databases.",
 ["inputs", "programs"], "all well-formed ipdb databases x all addresses",
 "The Rust crate has no tests and is not built by the suite.",
 ["rust/src/formats/ipdb/reader.rs", "rust/src/formats/ipdb.rs", "rust/src/query.rs", "rust/src/data.rs"],
 [("trie walk with 12-bit shortcut table", "rust/src/formats/ipdb/reader.rs: find_node, init_cache"), ("record decode", "rust/src/formats/ipdb/reader.rs: resolve_node, build_info")],
 [], ["qnip::query::QueryDb"])

prop("C26", "The Java reader gives the same answers as the Go reader",
 "For every well-formed ipdb database (including those this library packs) and every address, the Java library returns the same country, district, province, city, asn, isp, continent and line as the Go library, and throws exactly when the Go library returns an error; the result does not depend on the warm-up cache or on what callers did to earlier results. The version information it states (IP families, node count, build time, recorded version string, extra information) is the same, too. Where nodes or records of the file are damaged, it still answers the addresses the Go library answers, with the same values (as far as they are valid UTF-8), and refuses the others. Every textual IPv4 dotted-quad or IPv6 form the Go library accepts is accepted.",
 ["inputs", "programs"], "all well-formed ipdb databases x all addresses in all textual forms",
 "The Java tests read a developer's private file and are not run by the suite.",
 ["java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java", "java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java", "java/src/main/java/qiniu/uip/db/Query.java", "java/src/main/java/qiniu/uip/util/IPAddress.java"],
 [("trie walk with 12-bit shortcut table and result cache", "java/.../ipdb/Reader.java: findNode, query, buildCache"), ("record decode", "java/.../ipdb/Reader.java: resolveNode, query"), ("address parsing", "java/.../db/Query.java: query")],
 [], ["qiniu.uip.db.Query"])

prop("C27", "The Rust and Java readers survive corrupt databases",
 "For every byte string offered as an ipdb database, opening it with the Rust or the Java library and querying any address either succeeds or reports an error through the library's declared error type. The Rust library never panics and the Java library never lets an unchecked exception escape.",
 ["inputs"], "all byte strings, in particular all corruptions of well-formed ipdb databases",
 "Neither library has tests that run.",
 ["rust/src/formats/ipdb/reader.rs", "java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java"],
 [("header and size validation", "rust/src/formats/ipdb/reader.rs: Reader::new, MetaData::new; java/.../ipdb/Reader.java: constructor")],
 [], ["qnip::query::QueryDb", "qiniu.uip.db.Query"])

prop("C28", "The built-in self-checks accept exactly the right databases",
 "For every database, the IPv4 self-check succeeds exactly when 8.8.8.8 resolves to country 美国 and 119.29.29.29 to 中国, and the IPv6 self-check exactly when 2001:4860:4860::8888 and 2606:4700:4700::1111 both resolve to 美国. A database that cannot answer one of these addresses makes the check return an error, never crash.",
 ["inputs"], "all databases",
 "No test calls the self-checks.",
 ["db/query/query.go"],
 [("probe addresses", "db/query/query.go: CheckV4, CheckV6")],
 [], ["query.Db.CheckV4", "query.Db.CheckV6"])

prop("C29", "Inputs handed to the library are never written, nor read out of bounds",
 "For every input, the library only reads what callers hand it as input and never reads or writes outside it: opening, querying and dumping never write to the database bytes or to the address given (the bytes may live in read-only memory); packing in any format, several packs at once included, never writes to any part of the table; the operations never write to the rule, the normalisation tables, line data or the database they are driven by; and the ipnet functions never write to the addresses, networks and ranges they are given.",
 ["inputs", "schedules"], "all database bytes, addresses, tables, rules and arguments, well-formed or corrupt",
 "Tests use ordinary heap memory where a stray write or an out-of-bounds read behind an unchecked capacity goes unnoticed.",
 ["db/format/ipdb/reader.go", "db/format/awdb/reader.go", "db/format/awdb/decoder.go", "db/format/ipdb/packer.go", "db/format/plain/packer.go", "db/format/memip/packer.go", "db/field/operate/operate.go", "ipnet/range.go", "ipnet/ipnet.go", "ipnet/ip.go"],
 [("zero-copy record slices", "db/format/ipdb/reader.go: resolve"), ("data section views", "db/format/awdb/reader.go: FromBytes"), ("packers' views of the table", "db/format/*/packer.go: Pack")],
 [("database buffer", "the caller's bytes, kept by the reader for its lifetime", "db/format/ipdb/reader.go; db/format/awdb/reader.go")],
 ["query.NewDbFromBytes", "query.Db.Query", "convert.DumpFile", "convert.PackFile", "operate package", "ipnet package"])

prop("C30", "Memory, goroutines, files and temporary files are given back",
 "However often a database is opened, queried (by any addresses, also absent ones), dumped, packed, converted or refused as corrupt, in Go, Rust or Java, what the library holds once the caller lets go stays bounded: live heap does not grow with the number of operations or of distinct addresses asked, no goroutine stays behind, no file descriptor stays open (also after an error), and no file is left behind but the ones asked for.",
 ["inputs", "histories"], "all operation histories, successful and failed",
 "A leak shows only after many repetitions and no test repeats anything.",
 ["db/query/query.go", "db/format/ipdb/reader.go", "db/format/awdb/reader.go", "db/format/awdb/decoder.go", "db/format/formats.go", "rust/src/formats/ipdb/reader.rs", "java/src/main/java/qiniu/uip/util/File.java", "java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java"],
 [("caches kept for the life of a reader", "db/format/ipdb/reader.go; java/.../ipdb/Reader.java: cache"), ("files opened by name", "db/query/query.go: NewDb; java/.../util/File.java")],
 [("caches", "shortcut tables and the like kept per reader or per process", "db/format/awdb/decoder.go: fieldsMap; java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java")],
 ["query.NewDb", "query.NewDbFromBytes", "convert.DumpFile", "convert.PackFile", "qnip::query::QueryDb", "qiniu.uip.db.Query"])

prop("C31", "Threads may share one Java database",
 "For every database and every interleaving of Java threads that ask one Query object for addresses in any order, in bytes or text form, and edit the results they got, each answer equals the one a single thread gets, and no exception appears that a single thread would not see. Two databases opened in one process do not influence each other.",
 ["inputs", "schedules"], "all databases x all interleavings of querying threads",
 "The Java tests are single-threaded and are not run by the suite.",
 ["java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java", "java/src/main/java/qiniu/uip/db/Query.java"],
 [("result cache", "java/.../ipdb/Reader.java: query, cache")],
 [("result cache", "decoded results shared among threads", "java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java")],
 ["qiniu.uip.db.Query"])

prop("C32", "Formats go by file extension, stages run in order, files get exactly the output",
 "For every file name, kind, rule and list of operations: which format reads or writes is decided by the extension alone, matched exactly (unknown extensions are refused, and leave an existing file untouched when packing); the format gets exactly the bytes the file has at that moment and the given rule; operations run once each in the order listed, each on the result of the one before, and none runs if the dump failed; storing to a file writes exactly the bytes that packing to memory or to a writer yields and replaces whatever longer or shorter content was there; a format's error reaches the caller together with no result; answers, prefix lengths and version information of a format are handed on unchanged. Formats registered by programs behave like the built-in ones.",
 ["inputs", "configurations"], "all file names and contents x all rules x all operation lists x all registered formats",
 "No test calls DumpFile, PackFile or NewDb with a file, nor registers a format.",
 ["db/convert/dumper.go", "db/convert/packer.go", "db/format/formats.go", "db/query/query.go"],
 [("format by extension", "db/convert/dumper.go: DumpFile; db/convert/packer.go: PackFile, PackWriter; db/query/query.go: NewDb, NewDbFromBytes"), ("stage order", "db/convert/dumper.go: DumpFile")],
 [("format registries", "formats by extension", "db/format/formats.go")], ["convert.DumpFile", "convert.PackFile", "convert.PackBytes", "convert.PackWriter", "query.NewDb", "query.NewDbFromBytes", "format.Register*", "format.Get*"])

prop("C33", "Cut, padded, unknown or unreadable database files are refused",
 "For every well-formed ipdb database, the file cut short at any byte or with bytes appended is refused by the Go query and dump readers, the Rust reader and the Java reader: opening reports an error and yields nothing to query. The same holds for awdb files cut before their end, for file names of unknown or missing extension and for files that do not exist, are directories, empty or unreadable.",
 ["inputs", "crash_points"], "all cut points and appended bytes of all databases; all file names",
 "Tests open intact files only.",
 ["db/format/ipdb/reader.go", "db/format/awdb/reader.go", "db/query/query.go", "db/format/formats.go", "rust/src/formats/ipdb/reader.rs", "rust/src/query.rs", "java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java", "java/src/main/java/qiniu/uip/util/File.java"],
 [("size check", "db/format/ipdb/reader.go; rust/.../reader.rs: Reader::new; java/.../Reader.java"), ("format by file name", "db/query/query.go; db/format/formats.go; rust/src/query.rs; java/.../db/Query.java")],
 [], ["query.NewDb", "query.NewDbFromBytes", "convert.DumpFile", "qnip::query::QueryDb", "qiniu.uip.db.Query"])

prop("C34", "Work grows in proportion to the data",
 "For every shape of table and database, the CPU time and memory spent on opening, dumping, packing, normalising, unifying, merging, attaching districts and lines, and reading back grow no faster than about in proportion to the number of networks, and a query's or a range expansion's cost does not grow with the size of the database beyond the depth of its tree.",
 ["inputs"], "all tables and databases, by number of networks",
 "Tests run on tables of a few rows, where a quadratic step takes no time.",
 ["db/format/ipdb/packer.go", "db/format/ipdb/writer.go", "db/format/ipdb/dumper.go", "db/format/ipdb/reader.go", "db/format/awdb/dumper.go", "db/format/awdb/reader.go", "db/format/plain/packer.go", "db/format/plain/dumper.go", "db/format/memip/packer.go", "db/field/operate/replace.go", "db/field/operate/line.go", "db/field/operate/district.go", "ipnet/range.go"],
 [("merge and sort", "db/field/operate/replace.go: MergeNearNetwork"), ("string pool", "db/format/ipdb/writer.go")],
 [], ["query.Db", "convert.DumpFile", "convert.PackBytes", "operate package", "ipnet.Range.IPNets"])

prop("C35", "The Rust query command prints the library's result",
 "For every ipdb file and address argument (in UTF-8), the Rust query command prints the address with the country, district, province, city, asn, isp, continent and line the library gives for it under their labels, or prints an error and no result if the file cannot be opened or the address is refused or has no record; with arguments missing it prints its usage. It never panics, on corrupt files neither.",
 ["inputs", "configurations"], "all files x all argument lists",
 "Nothing builds or runs the command.",
 ["rust/src/bin/query.rs", "rust/src/data.rs", "rust/src/query.rs"],
 [("printing", "rust/src/bin/query.rs: main; rust/src/data.rs: Display for IpInfo")],
 [], ["rust query binary"])

prop("C36", "The awdb reader decodes any record into the caller's Go values exactly",
 "For every well-formed awdb file, with records of any type and nesting, and every Go type a caller passes: Lookup, LookupNetwork, LookupOffset with Decode, and Networks with Network store exactly the record's values (keys without a field are skipped, fields without a key stay untouched, a uintptr field receives an offset that decodes to the value), or return an UnmarshalTypeError if a value cannot be held, never a changed number. Values under different keys share nothing. LookupNetwork gives the record's network and whether there is one, absent addresses leave the result alone, nil and non-pointer results and addresses of wrong length or family are errors. Networks enumerates exactly the networks with data, NetworksWithin exactly those inside the given network (of either family, an IPv4 network meaning the addresses a lookup takes for IPv4; an IPv6 network in an IPv4 file is an error) or the one containing it, each with its own address; whatever is handed out may be edited by the caller without changing any later answer; and all of this holds for goroutines sharing the reader.",
 ["inputs", "schedules"], "all awdb files x all destination types x all addresses and networks",
 "No test opens an awdb file.",
 ["db/format/awdb/decoder.go", "db/format/awdb/reader.go", "db/format/awdb/traverse.go", "db/format/awdb/node.go"],
 [("typed decoding", "db/format/awdb/decoder.go: decode, decodeStruct, decodeMap, decodeSlice, unmarshal*"), ("tree walk", "db/format/awdb/traverse.go: NetworksWithin, Next; db/format/awdb/reader.go: traverseTree, cidr")],
 [("fieldsMap", "struct fields by type, shared by all readers", "db/format/awdb/decoder.go")],
 ["awdb.FromBytes", "awdb.Reader", "awdb.Networks"])

prop("C37", "Results are the same on every machine and in every run",
 "For every input, whatever a user can observe from the Go library (whether a database opens, version information, answers and masks, dumped tables, tables after any sequence of the operations, packed bytes apart from the creation time, typed awdb records and networks, range arithmetic) is a function of the input alone: it does not depend on the word size of the machine (32 or 64 bit), the number of processors, the garbage collector, compiler optimisation, locale, time zone, working directory, or which run it is. Damaged inputs never crash a 32 bit build either, they only may be refused there when a number does not fit and read dates past the year 1 000 000 differently; and no access goes outside the memory it belongs to (address sanitizer, checkptr).",
 ["inputs", "configurations"], "all inputs x builds x environments",
 "Every test runs in one process of one 64 bit build.",
 ["db/format/ipdb/reader.go", "db/format/awdb/decoder.go", "db/format/memip/dumper.go", "ipnet/ip.go", "db/field/operate/*.go", "db/format/ipdb/writer.go"],
 [("fixed-width numbers read into int and uint", "db/format/ipdb/reader.go: newReaderFromBytes, readNode, resolve, setCache; db/format/awdb/reader.go: FromBytes; db/format/awdb/decoder.go: decodeUint, decodePointer"), ("memip numbers", "db/format/memip/dumper.go")],
 [],
 ["query.NewDbFromBytes", "format.GetDumpFormat", "convert.PackBytes", "awdb.FromBytes", "ipnet.*"])

prop("C38", "The awdb reader survives corrupt files, whatever a caller reads into",
 "For every byte string that awdb.FromBytes opens (well-formed or damaged: lists and maps containing themselves or each other through pointers, pointer chains, deep nesting, sizes and offsets beyond the data, trees with loops), every address and every Go type: Lookup, LookupNetwork, LookupOffset with Decode, Networks and NetworksWithin return a value or an error. They never panic, never exhaust the stack, and need (each step of an enumeration too) time and memory bounded by the file and by the record written out in full, so a value containing itself is refused. The different ways to read an address end in the same value or the same error, and a network given for an address contains it.",
 ["inputs"], "all byte strings x all destination types x all addresses",
 "No test opens an awdb file.",
 ["db/format/awdb/decoder.go", "db/format/awdb/reader.go", "db/format/awdb/traverse.go", "db/format/awdb/node.go"],
 [("depth limit", "db/format/awdb/decoder.go: decode, decodeKey, nextValueOffset"), ("bounds", "db/format/awdb/decoder.go: decodeCtrlData, decodeFromType, decodePointer; db/format/awdb/reader.go: resolveDataPointer")],
 [], ["awdb.FromBytes", "awdb.Reader", "awdb.Networks"])

for p in P:
    sys.stdout.write(json.dumps(p, ensure_ascii=False) + "\n")
