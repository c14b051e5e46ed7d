#!/usr/bin/python3
"""Writes properties.jsonl (one place to keep the texts readable)"""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
	assert len(title) <= 80, title
	P.append({
		"id": id, "title": title, "statement": " ".join(statement.split()),
		"quantifier": {"over": over, "text": " ".join(text.split())},
		"why_tests_cant": " ".join(why.split()),
		"anchors": {
			"files": files,
			"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
			"mechanism": [{"name": n, "where": w} for n, w in mechanism],
			"observe_at": observe,
			"hook_needed": hook,
		},
	})

prop("C01", "A lookup returns the most specific network that was written",
	"""For any set of networks added to a writer and written to a database file, looking up any IPv4 or IPv6 address in that file
	returns a network which contains the address and carries exactly the country code, ASN and flags of the most specific added
	network that covers the address. If no added network covers the address, nothing is found.
	Adding the same network twice is refused and does not change the answers.""",
	["inputs", "histories"], "all sets of networks (any nesting, adjacency, prefix length, order of insertion) and all addresses",
	"The C and Lua tests write a handful of networks and look up a few addresses; merging, deduplication and the tree search are only right if every address between all edges gets the right answer.",
	["src/database.c", "src/writer.c", "src/network-tree.c", "src/network.c", "src/libloc/format.h", "src/libloc/address.h"],
	[("binary tree search with fallback to less specific leaves", "src/database.c __loc_database_lookup"),
	 ("tree clean up: deduplicate, merge siblings, drop nodes", "src/network-tree.c loc_network_tree_cleanup"),
	 ("breadth first serialisation of the tree", "src/writer.c loc_database_write_networks")],
	["loc_writer_add_network", "loc_writer_write", "loc_database_lookup", "loc_database_lookup_from_string"],
	[("network tree", "nodes (zero, one, network) of the file", "src/libloc/format.h")])

prop("C02", "Autonomous systems, countries and metadata survive the round trip",
	"""Every autonomous system and country added to a writer (in any order and number) is found in the written database by its number
	or code with exactly the name and continent it was given, appears exactly once in the enumeration, in ascending order, and keys that
	were never added are not found. If a key has been added more than once, the first record counts. Vendor, description and license come back as they were set last, and the creation time of
	the database is the time of writing.""",
	["inputs", "histories"], "all sets of AS numbers (32 bit), country codes, names of any length and content, any order, duplicates included",
	"Tests write a few records that are already in order; searching by bisection, the shared string pool and its growth depend on order, number and length of all records.",
	["src/writer.c", "src/as.c", "src/as-list.c", "src/country.c", "src/country-list.c", "src/stringpool.c", "src/database.c"],
	[("sorted sections and binary search", "src/database.c loc_database_get_as, loc_database_get_country; src/writer.c"),
	 ("string pool with deduplication", "src/stringpool.c")],
	["loc_database_get_as", "loc_database_get_country", "loc_database_enumerator_next_as", "loc_database_enumerator_next_country", "loc_database_get_vendor"])

prop("C03", "Listing all networks is complete, ordered, minimal and agrees with lookups",
	"""Enumerating all networks of a written database yields every stored network exactly once in ascending order (by first address, less specific first),
	and the listed networks cover exactly the addresses covered by the added ones. For every address, the most specific listed
	network is the very network a lookup returns and carries the properties of the most specific added network.
	The list never holds more networks than were added, and contains no network whose properties equal those of its closest listed parent,
	and no two halves of the same network with equal properties.""",
	["inputs"], "all sets of networks",
	"The enumeration is a stateful depth first search over the file; tests count results for one or two databases and never compare both views.",
	["src/database.c", "src/network-tree.c", "src/writer.c"],
	[("depth first search with a node stack", "src/database.c __loc_database_enumerator_next_network"),
	 ("deduplication and merging", "src/network-tree.c")],
	["loc_database_enumerator_new", "loc_database_enumerator_next_network", "loc_database_lookup"])

prop("C04", "Searches return exactly the matching records",
	"""A network search returns exactly those stored networks (in enumeration order, each once) that are of the requested family and, if country codes, ASNs
	or flags are given, match at least one of the given countries, ASNs or flags. A search for autonomous systems returns exactly those whose name
	contains the search string, ignoring (ASCII) case. Enumerators are independent of each other and of lookups made in between.""",
	["inputs", "histories"], "all databases, all combinations of filters, any interleaving of several enumerators",
	"Tests try single filters on one database; wrong combinations (family with flags, several countries, empty results) are not sampled.",
	["src/database.c", "src/country-list.c", "src/as-list.c", "src/as.c"],
	[("filter predicate", "src/database.c loc_database_enumerator_match_network"), ("string match", "src/as.c loc_as_match_string")],
	["loc_database_enumerator_set_countries", "loc_database_enumerator_set_asns", "loc_database_enumerator_set_flag", "loc_database_enumerator_set_family", "loc_database_enumerator_set_string"])

prop("C05", "Flattened listings are disjoint and exact",
	"""A flattened enumeration yields networks that do not overlap, in ascending order, each with the properties a lookup returns for every address inside it.
	Together they cover exactly the addresses whose most specific network matches the filters, no address more and none less.""",
	["inputs"], "all databases and all combinations of filters",
	"Splitting parents around arbitrary sets of children has combinatorially many shapes; tests have one example each.",
	["src/database.c", "src/network.c", "src/network-list.c"],
	[("splitting a network around its subnets", "src/database.c __loc_database_enumerator_next_network_flattened; src/network.c loc_network_exclude_list")],
	["loc_database_enumerator_new with LOC_DB_ENUMERATOR_FLAGS_FLATTEN", "loc_database_enumerator_next_network"])

prop("C06", "Bogons are exactly the space no country claims",
	"""For each address family with at least one network that has a country code, the enumerated bogons are disjoint networks that
	cover exactly those addresses which are not inside any stored network with a country code. If restricted to one
	family, only bogons of that family are returned, and listing them never fails on a well-formed database
	(IPv6 networks that touch the IPv4-mapped range ::ffff:0:0/96 aside).""",
	["inputs"], "all databases, in particular networks that touch the first or last address of a family, neighbours, nested networks and gaps of a single address",
	"Tests list bogons of one database and only print them.",
	["src/database.c", "src/network-list.c", "src/libloc/address.h"],
	[("gap tracking", "src/database.c __loc_database_enumerator_next_bogon"), ("range summary", "src/network-list.c loc_network_list_summarize")],
	["loc_database_enumerator_new with LOC_DB_ENUMERATE_BOGONS"])

prop("C07", "Verification accepts only unmodified databases signed by the key",
	"""Verifying a database with a public key succeeds if and only if at least one of its two signatures was made with the matching private key over
	exactly the content of the file. Any change, truncation or extension of the file outside of its signature fields makes verification fail, with either
	signature slot, and so does a wrong key, a damaged signature, or a missing one; nothing but a success is ever reported as success.""",
	["inputs"], "all single and multi byte modifications, truncations and extensions; all key pairs (different EC curves, RSA); both signature slots",
	"The test flips nothing: it verifies one good file with good and wrong keys.",
	["src/database.c", "src/writer.c", "src/libloc/format.h"],
	[("digest over magic, header without signatures, and everything else", "src/database.c loc_database_verify")],
	["loc_database_verify"])

prop("C08", "Writing with keys either fails or produces valid signatures",
	"""If a writer was created with one or two private keys and writing reports success, the file verifies with the public key of every one of them, whichever slot it is in,
	for any content of the database and on every write of the same writer. Keys that cannot sign make creation or writing fail
	instead of producing an unsigned or wrongly signed database, and a database written without keys verifies with no key.""",
	["inputs", "configurations", "histories"], "all contents and sizes, all combinations of key types, repeated writes with changes in between",
	"One test signs one small database with two fixed keys.",
	["src/writer.c", "src/database.c"],
	[("signature creation after the file body has been written", "src/writer.c loc_writer_create_signature")],
	["loc_writer_new", "loc_writer_write", "loc_database_verify"])

prop("C09", "Reading any file whatsoever is memory safe and terminates",
	"""Opening, verifying, looking up in and enumerating a file with arbitrary content - truncated, corrupted or crafted - never accesses memory out of bounds, never leaks or
	crashes and always terminates: every call returns a result or an error. This holds for every header field, tree shape (cycles included), index, string and length.""",
	["inputs"], "all files",
	"Tests only open well-formed files and /dev/null style inputs.",
	["src/database.c", "src/stringpool.c", "src/as.c", "src/country.c", "src/network.c"],
	[("boundary checks of every object", "src/database.c __loc_database_check_boundaries, loc_database_object"),
	 ("visited markers and stack limit", "src/database.c loc_database_enumerator_stack_push_node"), ("pool bounds", "src/stringpool.c")],
	["loc_database_new", "loc_database_lookup", "loc_database_enumerator_*", "loc_database_verify", "AddressSanitizer/UBSan"])

prop("C10", "Any history of API calls is memory safe and leaves nothing behind",
	"""In any sequence of calls of the public API with valid handles - objects shared, referenced, modified, listed, written and released in any order, including calls that fail - there is no access to
	released or foreign memory, no undefined behaviour and, once all references have been dropped, no leaked memory, file descriptor or context. Objects returned to the caller stay valid until
	the caller drops its own reference.""",
	["histories"], "all call sequences",
	"Tests call each function a few times in one fixed order, without sanitizers.",
	["src/*.c"],
	[("reference counting", "all _ref/_unref functions"), ("error paths", "all constructors")],
	["all exported functions", "AddressSanitizer, LeakSanitizer, UBSan"])

prop("C11", "A write that reports success has written a complete database",
	"""If the output file cannot take all data (disk full, size limit, I/O error at any point, on writing, seeking or reading back), writing a database terminates and reports failure.
	Whenever it reports success, everything has been handed to the operating system and the file is a complete database that is identical to the one an undisturbed write produces.""",
	["fault_sequences", "crash_points"], "every byte offset and call at which the file can start to fail, persistently or temporarily, for any buffer size",
	"Tests never make a write fail.",
	["src/writer.c", "src/stringpool.c"],
	[("checking results of writes", "src/writer.c loc_writer_write")],
	["loc_writer_write return value, bytes in the file"])

prop("C12", "Equal content produces equal bytes",
	"""Two writers that were given the same content - whatever process, memory layout or previous use of memory - write byte-identical databases when written at the
	same time, apart from the signatures themselves. The order in which networks, autonomous systems and countries were added does not matter
	beyond the order of strings, and the file never contains uninitialised memory.""",
	["inputs", "histories"], "all contents; all states of stack and heap before the write",
	"No test compares files; reading back cannot show padding bytes or garbage.",
	["src/writer.c", "src/network.c", "src/country.c", "src/as.c", "src/libloc/format.h"],
	[("initialised header, records and padding", "src/writer.c")],
	["bytes of the written file", "valgrind memcheck on write(2)"])

prop("C13", "Addresses and networks are parsed strictly and printed canonically",
	"""A string is accepted as a network if and only if it is a valid IPv4 or IPv6 address with an optional decimal prefix length in the range of its family (IPv4-mapped spellings and leading zeroes of the prefix are left open);
	everything else is rejected with an error, and a missing prefix means a host. The parsed network starts at the address with all host bits cleared, ends with all
	host bits set, and its textual form is the canonical one, which parses back to the same network; a lookup by string accepts the same addresses (without a prefix).""",
	["inputs"], "all strings",
	"Tests parse about a dozen strings.",
	["src/address.c", "src/network.c", "src/libloc/address.h"],
	[("inet_pton and prefix parsing", "src/address.c loc_address_parse"), ("masking", "src/network.c loc_network_new")],
	["loc_network_new_from_string", "loc_network_new", "loc_network_str", "loc_network_get_first_address", "loc_database_lookup_from_string"])

prop("C14", "Network relations are exact and consistent",
	"""For any two networks of the same family, containment of an address, subnet, overlap and order are those of the sets of addresses they denote: a network is a subnet of another exactly if all of its
	addresses are, networks overlap exactly if they share an address, and comparison is a total order by first address and then prefix length which is equal only for equal networks.
	Networks of different families never overlap or contain each other's addresses (except for IPv6 networks that span the IPv4-mapped range).""",
	["inputs"], "all pairs and triples of networks",
	"A dozen pairs in the tests.",
	["src/network.c", "src/libloc/address.h"],
	[("interval comparisons", "src/network.c loc_network_cmp, loc_network_overlaps, loc_network_is_subnet, loc_network_matches_address")],
	["loc_network_cmp", "loc_network_overlaps", "loc_network_is_subnet", "loc_network_matches_address"])

prop("C15", "Splitting and excluding networks preserves the address set exactly",
	"""Halving a network gives two networks of equal size that partition it and inherit all properties, and halving a single address fails. Excluding one
	subnet or a list of networks with at least one proper subnet from a network gives disjoint, sorted networks that cover exactly the addresses of the network that are in none of the
	excluded ones, and carry the properties of the original.""",
	["inputs"], "all networks and lists of networks to be excluded, nested, duplicate, unrelated or equal ones included",
	"Tests have one or two examples.",
	["src/network.c", "src/network-list.c"],
	[("recursive halving", "src/network.c __loc_network_exclude, loc_network_exclude_list")],
	["loc_network_subnets", "loc_network_exclude", "loc_network_exclude_list"])

prop("C16", "Lists behave like the collections they claim to be",
	"""A network list is always the sorted set of the networks pushed and not yet popped: pushing a duplicate changes nothing, popping returns the greatest or the smallest element,
	merging is the set union, and membership and indexed access agree with it. AS and country lists keep each element once in order of insertion until sorted by
	number or code, and answer membership by number or code exactly. All of this for any number of elements and any sequence of operations.""",
	["histories"], "all sequences of operations and sizes",
	"Tests push five networks.",
	["src/network-list.c", "src/as-list.c", "src/country-list.c"],
	[("binary search insertion", "src/network-list.c loc_network_list_push, loc_network_list_search"), ("growth", "loc_*_list_grow")],
	["loc_network_list_*", "loc_as_list_*", "loc_country_list_*"])

prop("C17", "Reverse pointers name exactly the network",
	"""The reverse DNS name of a network consists of its significant octets (IPv4) or nibbles (IPv6) in reverse order, in front of the given or default suffix,
	with a leading wildcard label exactly if the network is larger than one address. Prefix lengths which do not end on an octet or nibble are refused.""",
	["inputs"], "all networks and suffixes",
	"Few examples in the tests.",
	["src/network.c", "src/libloc/address.h"],
	[("octet and nibble extraction", "src/libloc/address.h loc_address_get_nibble; src/network.c loc_network_reverse_pointer")],
	["loc_network_reverse_pointer"])

prop("C18", "Country codes and special codes are interpreted uniformly",
	"""A country code is valid exactly if it consists of two upper case letters and is not in the private range starting with X, and only valid codes can be set, stored or searched; clearing
	a code is always possible. The special codes A1, A2, A3 and XD - and nothing else - stand for the anonymous proxy, satellite provider, anycast and drop flags, and a network matches a
	code exactly if it carries that country code or that flag. Setting flags accumulates and does not affect other properties.""",
	["inputs", "histories"], "all strings and all combinations of properties",
	"Tests check a handful of codes.",
	["src/country.c", "src/network.c", "src/libloc/country.h"],
	[("validation", "src/country.c loc_country_code_is_valid"), ("special codes", "src/country.c loc_country_special_code_to_flag")],
	["loc_country_code_is_valid", "loc_country_special_code_to_flag", "loc_network_set_country_code", "loc_network_matches_country_code", "loc_country_new"])

prop("C19", "The announced database version is read safely from any DNS reply",
	"""Whatever a name server answers - truncated, oversized, compressed, looping or random packets included - discovering the latest version returns either an error or the
	timestamp published in a TXT record of the queried name, without using anything outside of the reply. Exactly one query, for the zone of the requested database version, is sent, and replies that do not contain a parsable timestamp are errors.""",
	["inputs"], "all replies",
	"There is no test without network access.",
	["src/resolv.c"],
	[("reply parser", "src/resolv.c loc_discover_latest_version")],
	["loc_discover_latest_version"])

prop("C20", "The Python module is a faithful and safe view of the library",
	"""For every database and every input, what the Python module returns (lookups, records, searches, network attributes, writing) equals what the data model
	says, ASNs up to 32 bits included; objects that do not exist and names or ASNs that are not set are None. Equal objects compare (and hash) as equal. Every misuse of an initialised object - wrong types, invalid values, deleted attributes, unusable files -
	raises a Python exception other than SystemError and never crashes the interpreter, corrupts memory or loses references or file descriptors; invalid addresses, networks and country codes raise ValueError.""",
	["inputs", "histories"], "all call sequences and argument values of the module",
	"Tests cover a few happy paths on a database that is not available everywhere.",
	["src/python/*.c", "src/python/location/__init__.py"],
	[("wrappers", "src/python/*.c")],
	["_location module", "AddressSanitizer"])

prop("C21", "The Lua module is a faithful and safe view of the library",
	"""For every database, what the Lua module returns for lookups, countries, autonomous systems, network listings and network operations equals what the data model says, and values that do not
	exist are nil. Every misuse - invalid values, wrong types, objects that have been released - raises a Lua error and never crashes the interpreter or corrupts memory, whatever order objects are collected in and whatever a log callback does.""",
	["inputs", "histories"], "all call sequences and argument values of the module",
	"The Lua tests are mostly skipped without a database and cover single calls.",
	["src/lua/*.c"],
	[("wrappers", "src/lua/*.c")],
	["location module", "AddressSanitizer"])

prop("C22", "The Perl module is a faithful and safe view of the library",
	"""For every database, what the Perl module returns for lookups, countries, autonomous systems, flags, signatures and metadata equals what the data model says, and objects, ASNs and continents
	that do not exist are undef. Every misuse - invalid values, anything that is not a database, a handle that has been closed - dies with an exception or returns undef, and never crashes the interpreter or corrupts memory.""",
	["inputs", "histories"], "all call sequences and argument values of the module",
	"The Perl test makes about twenty calls on one database.",
	["src/perl/Location.xs", "src/perl/typemap", "src/perl/lib/Location.pm"],
	[("wrappers", "src/perl/Location.xs")],
	["Location module", "AddressSanitizer"])

prop("C23", "Exports contain exactly the effective networks of each object",
	"""For every database and any set of requested countries, special codes and ASNs, an export writes one file per object and family, which holds - disjoint and in order - exactly
	the addresses whose most specific network has that country, ASN or flag. All formats (list, ipset, nftables, xt_geoip) denote the same set of addresses and are syntactically loadable: the ipset
	header declares a size that fits, nftables sets are closed, and xt_geoip files consist of address ranges.""",
	["inputs", "configurations"], "all databases, selections, families and formats",
	"The export test needs a database that is not there.",
	["src/python/location/export.py", "src/scripts/location.in", "src/database.c"],
	[("dispatch of networks to writers", "src/python/location/export.py Exporter.export"), ("format writers", "src/python/location/export.py")],
	["location export", "location.export.Exporter"])

prop("C24", "The command line reports what the database holds",
	"""For every database, the location command prints for each queried address, AS, country or network list exactly what the database holds, one result per item, in the documented format and restricted to the requested
	family; its exit code is zero exactly if every address and AS that was asked for was found and all output could be written - which is the same for pipes and files, whose previous content is left alone -
	and invalid addresses, numbers, codes and databases are reported on standard error with a non-zero exit code instead of a traceback (an export reports and leaves out objects that are invalid).
	A dump lists every AS and every network of the database exactly once with all properties.""",
	["inputs"], "all databases and argument lists",
	"There are no tests for the command.",
	["src/scripts/location.in"],
	[("command handlers", "src/scripts/location.in CLI")],
	["standard output, standard error and exit code of location"])

prop("C25", "Only a verified and recent database is ever delivered by the downloader",
	"""Whatever mirrors answer - errors, outdated, truncated, corrupted, oversized or unsigned files, wrong keys, refused or dropped connections, in any order - a download either returns a file
	that is a byte-exact copy of a database which verifies with the given key and is not older than requested, or fails with FileNotFoundError. Every mirror is tried until one delivers, data of one mirror never
	mixes with that of another, and no temporary files are left behind after a failure.""",
	["fault_sequences", "inputs"], "all sequences of mirror behaviour",
	"There are no tests for downloads.",
	["src/python/location/downloader.py"],
	[("mirror loop and database check", "src/python/location/downloader.py Downloader.download")],
	["Downloader.download", "files in the target directory"])

prop("C26", "An update replaces the database atomically or leaves it alone",
	"""At every instant of an update, and after an interruption at any point, the installed path holds either the complete old or the complete new database, and readers that have it open keep seeing theirs.
	An update never installs a database that is older or not verified; without a newer one, or if any file operation fails, it leaves the installed file untouched, and unless the installed database
	is known to be the latest, it says so with a non-zero exit code. A successful one exits with zero and leaves exactly the new database, readable for everyone; no update leaves other files unless it was killed.""",
	["crash_points", "schedules"], "every system call of the update at which it may be killed; every interleaving with readers",
	"There are no tests for updates.",
	["src/scripts/location.in", "src/python/location/downloader.py"],
	[("temporary file in the same directory, then rename", "src/scripts/location.in handle_update")],
	["content of the installed path"])

prop("C27", "Running out of memory is an error, not a crash",
	"""If any memory allocation inside the library fails, once or from then on, the call in progress reports failure or completes correctly: it does not crash, corrupt or leak, and
	objects that existed before remain usable. A call that reports success despite the failure has the same observable effect as without it.""",
	["fault_sequences"], "every single allocation of every public operation, in sequence",
	"Tests never fail an allocation.",
	["src/*.c"],
	[("checks after every allocation", "all constructors, list and pool growth")],
	["all exported functions with a failing allocator"])

prop("C28", "Threads with their own handles do not interfere",
	"""Threads that each use their own context and their own database, network and writer objects concurrently get the same results as if they ran alone, without data races.
	Several processes may read the same database file at the same time while another instance replaces it.""",
	["schedules"], "all interleavings of independent threads",
	"Tests are single threaded.",
	["src/*.c"],
	[("no shared mutable state", "src/address.c loc_address_str buffers; src/libloc.c")],
	["ThreadSanitizer", "results of every thread"])

prop("C29", "The importer admits only plausible networks and AS numbers",
	"""Whatever is in a registry file, third-party feed, geofeed or routing table, the importer stores a network only if it is a globally routable unicast prefix (for registries and feeds no shorter than /7 or /10,
	for announcements no longer than /24 or /48), and an AS number only if it is in a publicly allocatable range (1-23455, 23457-64495, 131072-4199999999). Every well-formed record is stored with exactly the addresses, country
	and name it states; malformed, inadmissible or undecodable records are skipped without an error and without affecting others; a feed which is broken as a whole, or has no usable entry, is reported, keeps what
	has been stored before, and does not stop the others.""",
	["inputs", "fault_sequences"], "all input records in all formats; every way in which a source may fail",
	"There are no tests for the importer.",
	["src/scripts/location-importer.in", "src/python/location/database.py", "src/python/location/downloader.py"],
	[("validation of parsed networks and ASNs", "src/scripts/location-importer.in _check_parsed_network, _check_parsed_asn"), ("parsers", "src/scripts/location-importer.in _parse_block, _parse_line, _import_*, _fetch_geofeed, _bird_cmd")],
	["rows stored in the database", "exit code of location-importer"])

prop("C30", "A compiled database answers by the most specific entry and by precedence",
	"""For everything that has been imported, the database written by location-importer contains every known network. It has the AS of the most specific announcement that contains it. Its country is that of the most specific registry
	entry, replaced by that of the most specific geofeed entry (if that geofeed may speak for the network), then, where they state something, country and each flag are replaced by the most specific third-party feed, the feed for its AS,
	the most specific network override, and the override for its AS, in that order; an override may clear a flag. AS names come from the registries unless overridden, ASes without a name are left out, countries
	and metadata are as given, and the database is signed with exactly the given keys.""",
	["inputs"], "all contents of the importer's tables",
	"There are no tests for the importer.",
	["src/scripts/location-importer.in"],
	[("compilation", "src/scripts/location-importer.in handle_write")],
	["answers of the written database for all addresses"])

prop("C31", "Imports replace exactly what they import, or nothing",
	"""For every history of imports, each table holds exactly what the latest successful import of every source has stated: a repeated import replaces all previous entries of that source and nothing else, a source that fails at any point keeps its
	previous entries while the others are still updated and the failure shows in the exit code. Registry entries that do not change the country of a larger one may be left out, the most specific one with a country decides. Announcements disappear
	once they have not been seen for 14 days. A geofeed is fetched when it is due (new, or a week after the last success), exactly once; its data are replaced on success, removed if it is gone (404), kept after other
	failures for up to two weeks, and removed when no network refers to it. Overrides are replaced as a whole, the first of several for the same network or AS counts, and those for everything are refused.""",
	["histories", "fault_sequences"], "all sequences of imports, failures and waiting",
	"There are no tests for the importer.",
	["src/scripts/location-importer.in", "src/python/location/database.py"],
	[("transactions and replacement", "src/scripts/location-importer.in _process_source, _process_feed, _fetch_geofeed, handle_update_*")],
	["rows stored in the database", "exit code of location-importer"])

prop("C32", "Log messages reach exactly the receiver that wants them",
	"""Every message of a context is delivered exactly once, to the callback (with its data) or log function that was set last for that very context, or else to standard error, and only if its priority is at most that of
	the context at that time; contexts do not affect each other. A new context starts with LOG_ERR, or with what LOC_LOG says (a number, err, info or debug). Messages of a lower level do not depend on whether higher ones are enabled, dumping
	a network list logs each of its networks in order, and neither levels nor receivers nor debugging builds change the result of any call.""",
	["inputs", "histories"], "all histories of calls, contexts, receivers and levels",
	"Tests do not look at any messages.",
	["src/libloc.c", "src/libloc/private.h", "src/network-list.c"],
	[("delivery", "src/libloc.c loc_log, loc_set_log_callback, loc_set_log_fn"), ("filter", "src/libloc/private.h loc_log_cond"), ("defaults", "src/libloc.c loc_new, log_priority"), ("list dumps", "src/network-list.c loc_network_list_dump")],
	["messages received by callbacks, log functions and on standard error", "results of all calls"])

if __name__ == "__main__":
	path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
	with open(path, "w") as f:
		for p in P:
			f.write(json.dumps(p) + "\n")
