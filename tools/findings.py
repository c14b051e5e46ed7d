#!/usr/bin/python3
"""Writes known_findings.json; the commits of fixes are looked up by their subject"""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines():
	h, s = l.split(" ", 1)
	log[s] = h

FIXED = [
	("C01", "database: lookup: Fall back to less specific networks", "an address whose path in the tree ends below a network was not found"),
	("C01", "database: lookup: Don't access any bits beyond the address", "a lookup read bit 128 of the address in trees with a node below a host"),
	("C10", "address: Don't call __builtin_ctz() with zero", "undefined behaviour when summarizing from ::"),
	("C10", "network-tree: Don't access networks after they have been merged", "use after free when a merge cascades"),
	("C10", "as: Don't use the old name after it has been released", "setting the name of an AS to a part of its current name used freed memory"),
	("C10", "country: Reset the name when it is released", "clearing a country's name left a dangling pointer (double free)"),
	("C02", "stringpool: Grow until the string fits", "a string longer than one growth step was written beyond the pool"),
	("C02", "writer: Sort countries before writing them", "countries added out of order were not found"),
	("C10", "writer: Don't leak countries or their continent codes", "countries of a writer were never released"),
	("C03", "database: Make the stack of the enumerator large enough", "enumeration failed for a tree with siblings on every level"),
	("C09", "database: Don't follow network trees beyond the last bit", "a cyclic tree made enumerating write beyond the address"),
	("C09", "database: Don't access the root node of an empty tree", "a database without any nodes was read out of bounds"),
	("C06", "network-list: Summarize only the addresses of the given range", "bogons before an odd edge included addresses with a country"),
	("C06", "database: Find bogons at the edges of the address space", "no bogons were found in front of the first or after the last network at the edge of the address space"),
	("C06", "network-list: Don't stop summarizing at the IPv4-mapped addresses", "IPv6 bogons ended below ::ffff:0:0/96"),
	("C13", "address: Reject anything that is not a prefix", "10.0.0.0/ and 10.0.0.0/8x were accepted"),
	("C13", "address: Don't truncate long input", "long strings were cut and the rest accepted"),
	("C17", "network: Don't leak memory when building reverse pointers", "every reverse pointer leaked the intermediate buffers"),
	("C18", "network: Don't match any flags without a country code", "a network without flags matched any unknown code"),
	("C18", "country: Compare the entire special country code", "A1x was taken for A1"),
	("C07", "database: verify: Fail if the file cannot be read", "a read error while hashing was ignored"),
	("C07", "database: verify: Don't abort if one signature cannot be parsed", "a database with a valid second signature was refused if the first one was garbage"),
	("C08", "writer: Fail if a signature could not be created", "writing with a key that cannot sign reported success"),
	("C27", "writer: Check if nodes could be allocated", "a failed allocation was dereferenced"),
	("C11", "writer: Report any errors when writing", "failed writes were reported as success"),
	("C12", "writer: Don't write uninitialized memory", "uninitialised stack memory was written into the database"),
	("C09", "database: Don't overflow when checking boundaries", "an offset near 2^32 passed the boundary check"),
	("C09", "database: Don't read beyond the end of the string pool", "a string that is not terminated in the pool was read out of bounds"),
	("C09", "network: Release networks that could not be read from the database", "networks with an invalid country code leaked"),
	("C10", "writer: Release objects that could not be added", "networks, countries and ASes that could not be added leaked"),
	("C09", "database: Release everything if flattening fails", "an error while flattening leaked lists and networks"),
	("C27", "network-tree: Fail if a node could not be allocated", "a failed allocation was dereferenced when adding to the tree"),
	("C27", "network-tree: Don't leak a network if the stack cannot grow", "networks leaked when memory ran out"),
	("C27", "network: Don't leak the first half if there is no second one", "the first subnet leaked when memory ran out"),
	("C27", "network: Raise any errors when excluding networks", "errors while excluding were swallowed and an incomplete list returned"),
	("C27", "as-list: Don't match if there is no memory", "an AS list without memory for the comparison"),
	("C27", "country-list: Don't match if there is no memory", "a country list without memory for the comparison"),
	("C27", "writer: Fail if a name could not be stored", "names that could not be stored were replaced silently"),
	("C27", "database: Don't leak the file descriptor if it cannot be opened", "a failed open leaked the file"),
	("C10", "database: Don't leak any previous search strings", "setting the search string of an enumerator twice leaked the first"),
	("C10", "database: Don't return anything uninitialized when not enumerating networks", "asking an AS enumerator for networks returned an uninitialised pointer"),
	("C27", "network-tree: Don't release the root node if there is none", "a writer without memory for its tree crashed"),
	("C27", "database: lookup: Raise any errors", "a lookup without memory reported that there is no network"),
	("C19", "resolv: Don't write beyond the end of the answer", "a reply of exactly 512 bytes was terminated behind the buffer"),
	("C28", "address: Don't share any buffers between threads", "addresses formatted by several threads overwrote each other"),
	("C20", "python: Return None for the name of an AS that does not have any", "AS(1).name crashed the interpreter"),
	("C20", "python: Accept and show all 32 bit AS numbers and refuse any others", "AS numbers from 2^31 were refused or shown as negative, negative ones accepted"),
	("C20", "python: Raise an exception whenever an operation fails", "invalid country codes, unusable keys and others raised SystemError or crashed"),
	("C20", "python: Check the values that attributes are set to", "deleting attributes or setting them to other types crashed the interpreter"),
	("C20", "python: Do not allow to create enumerators without a database", "DatabaseEnumerator() crashed the interpreter"),
	("C20", "python: Do not leak file handles of keys and do not drop references to None", "every verification leaked a file handle"),
	("C20", "python: Do not leak the enumerator when a search cannot be created", "searches with invalid values leaked the enumerator and the database"),
	("C20", "python: Equal objects must not compare as being different", "a != b was true for equal objects"),
	("C21", "lua: Return nil if a country could not be found", "get_country crashed for countries that do not exist"),
	("C21", "lua: Accept and show all 32 bit AS numbers and refuse any others", "AS numbers from 2^31 were shown as negative, invalid ones accepted"),
	("C21", "lua: Raise an error when an object has already been released", "using an object after its finalizer crashed the interpreter"),
	("C21", "lua: Do not use a thread for logging that might have been collected", "messages were passed to a coroutine that had been collected; errors in the callback escaped through the library"),
	("C22", "perl: Return undef if a country or its continent does not exist", "get_country_name and get_continent_code crashed for countries that do not exist"),
	("C22", "perl: Do not truncate AS numbers", "get_as_name returned the name of another AS for numbers beyond 32 bits"),
	("C22", "perl: Only accept databases as such and close them automatically", "any reference was used as a database and crashed; databases were never closed"),
	("C23", "python: export: Make xt_geoip usable again", "every xt_geoip export raised AttributeError"),
	("C23", "python: export: Search for networks with flags, too", "exports of A1, A2, A3 and XD missed networks outside of the other requested objects"),
	("C24", "location: Don't show a traceback if the database cannot be opened", "files that are no databases caused a traceback"),
	("C24", "location: List countries without a name or continent", "list-countries --show-continent failed for countries without one"),
	("C24", "location: Continue after ASNs which are out of range", "get-as 4294967296 1 did not print anything about AS1"),
	("C24", "location: Don't seek in standard output", "list-networks-by-cc --format=ipset >> file ended with a flush of the set, or overwrote the file"),
	("C24", "location: Fail if the output could not be written", "dump > /dev/full returned an exit code of zero"),
	("C25", "downloader: Start over with every mirror", "data of a mirror was appended to what another one had sent"),
	("C25", "downloader: Try the next mirror if there is data after the end of the file", "data after the end of the file raised EOFError and left the temporary file behind"),
	("C25", "downloader: Try the next mirror after connection problems", "a mirror that could not be reached ended the download and left the temporary file behind"),
	("C25", "downloader: Try the next mirror if the file is not a database", "a file which is not a database ended the download and left the temporary file behind"),
	("C25", "downloader: Always delete the temporary file when a download fails", "failed downloads left the temporary file behind"),
	("C25", "downloader: Don't use any data before it has been verified", "an invalid timestamp in a damaged database ended the download"),
	("C26", "location: Always replace the database atomically", "if rename() failed, the new database was copied into the installed file"),
	("C26", "location: Never update to an older database", "without an answer from the name server, an update replaced the database by an older one"),
	("C29", "importer: Use a type that can hold any AS number", "a single AS number from 2^31 made a whole registry fail"),
	("C29", "importer: Skip invalid AS numbers in aut-num blocks", "private and reserved AS numbers were stored, those from 2^31 made the registry fail, AS1.10 became AS1"),
	("C29", "importer: Skip organisations without a handle or name", "an organisation without a name made the whole registry fail"),
	("C29", "importer: Skip malformed networks in inetnum blocks", "inetnum: 1.2.3, reversed ranges, and malformed inet6num made the whole registry fail"),
	("C29", "importer: Skip multicast and reserved networks", "224.0.0.0/8 and 4000::/12 were stored"),
	("C29", "importer: Import exactly the addresses of lines in the extended format", "a count of zero made the registry fail, 768 addresses became a /23, unaligned ones covered addresses of others"),
	("C29", "importer: Skip lines that cannot be decoded", "a line that is not UTF-8 made the registry fail"),
	("C29", "importer: Skip malformed lines in the list of AS names", "an AS number that is not a number made the registry fail"),
	("C29", "importer: Skip malformed prefixes from AWS", "an invalid prefix raised NameError (ValuleError), a missing region AttributeError"),
	("C29", "importer: Only accept Spamhaus DROP feeds with networks", "a page without any networks deleted all networks; a repeated network made the feed fail"),
	("C29", "importer: Skip malformed lines in Spamhaus ASNDROP", "a line with something else than an object, or a repeated AS, made the feed fail"),
	("C29", "importer: Skip implausible networks in Geofeeds", "private networks in geofeeds were stored and compiled into the database"),
	("C29", "importer: A broken Geofeed must not stop all others", "a connection reset or a damaged file of one geofeed cancelled all of them"),
	("C29", "importer: Ignore alternative routes for the same network", "a second route for a network was stored as network ' ', which PostgreSQL refuses"),
	("C29", "importer: Don't wait forever when Bird fails or disconnects", "the importer hung when bird closed the connection or answered with an error"),
	("C29", "importer: Skip site-local networks", "fec0::/10 was stored"),
	("C29", "importer: Drop NUL characters", "a NUL character in a name made the registry fail"),
	("C29", "importer: Skip networks with a scope ID", "2a10::%1/32 made the registry fail"),
	("C29", "importer: Purge announcements of the IPv6 documentation prefix", "announcements of 2001:db8::/32 were kept"),
	("C12", "network: Clear the entire country code", "a country code that was set and removed left a character in the database, and kept the network from being merged (C03)"),
	("C32", "Call the log function that has been set", "loc_set_log_fn() did nothing: messages went to standard error instead of the function"),
	("C20", "python: Release the previous object when being initialised again", "__init__() of an initialised object lost what it held before"),
	("C03", "network-tree: Merge networks that were blocked by one that got merged", "two halves were not merged if their parent was merged later in the same write; the next write merged them"),
	("C09", "database: Don't exhaust the stack when flattening", "a flattened search crashed when more than about 100000 matching networks in a row were entirely covered by subnets that do not match"),
	("C20", "python: Don't cut off strings at a null character", "names, vendors and codes that are set to a text with a null character are silently cut off there (\"DE\\0x\" becomes \"DE\")"),
	("C23", "export: Let ipsets hold all networks", "an ipset with more than 1048576 networks is declared to hold only that many"),
	("C21", "lua: Refuse strings with null characters", "addresses, networks and codes with a null character were cut off there and accepted"),
]
KNOWN = [
]

findings = []
for p, s, what in FIXED:
	c = log["fix: " + s]
	findings.append({"property": p, "key": "fixed:" + s, "status": "fixed", "commit": c, "what": what,
		"line": "fixed: property=%s %s %s" % (p, c[:12], what)})
for p, key, what in KNOWN:
	findings.append({"property": p, "key": key, "status": "known", "what": what})
known = {s for _, s, _ in FIXED}
for s in log:
	if s.startswith("fix: ") and s[5:] not in known:
		print("not recorded: %s" % s)
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
	json.dump({"findings": findings}, f, indent=1)
	f.write("\n")
