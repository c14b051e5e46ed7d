"""
Builds instrumented variants of libloc from /repo's current working tree.

Nothing of /repo's own build products is used or written: every variant is compiled from the
sources into /verif/.build (ignored by git), keyed by a hash over all inputs.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")

SAN = ["-fsanitize=address,undefined,bounds-strict", "-fno-sanitize=alignment,nonnull-attribute", "-fno-sanitize-recover=undefined",
	"-fno-omit-frame-pointer"]

BASE = ["-g", "-std=gnu11", "-fPIC", "-w", "-DLIBLOC_PRIVATE", "-DSYSCONFDIR=\"/etc\"",
	"-include", os.path.join(HARNESS, "config", "config.h"), "-I%s/src" % REPO]

WRAPS = ["malloc", "calloc", "realloc", "reallocarray", "strdup", "asprintf", "vasprintf"]


class BuildError(Exception):
	pass


def run(cmd, **kwargs):
	p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kwargs)
	if p.returncode:
		raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
	return p.stdout


def sources():
	"""All C files of the library itself (test programs live beside them)"""
	return sorted(
		f for f in glob.glob("%s/src/*.c" % REPO) if not os.path.basename(f).startswith("test-")
	)


def digest(files, *extra):
	h = hashlib.sha256()
	for f in sorted(files):
		h.update(f.encode() + b"\0")
		with open(f, "rb") as fp:
			h.update(fp.read())
		h.update(b"\0")
	for e in extra:
		h.update(repr(e).encode())
	return h.hexdigest()[:16]


def lib_inputs():
	return sources() + sorted(glob.glob("%s/src/libloc/*.h" % REPO)) + [os.path.join(HARNESS, "config", "config.h")]


class Variant:
	"""Runs make(dir) once for every combination of inputs; returns the directory"""
	def __init__(self, name, inputs, key, make):
		self.name, self.inputs, self.key, self.make = name, inputs, key, make

	def get(self):
		d = os.path.join(BUILD, "%s-%s" % (self.name, digest(self.inputs, self.key)))
		os.makedirs(BUILD, exist_ok=True)
		with open(os.path.join(BUILD, "%s.lock" % self.name), "w") as lock:
			fcntl.flock(lock, fcntl.LOCK_EX)
			if os.path.exists(os.path.join(d, ".done")):
				return d
			# Only keep one build of each variant
			for old in glob.glob(os.path.join(BUILD, "%s-????????????????" % self.name)):
				shutil.rmtree(old, ignore_errors=True)
			os.makedirs(d)
			try:
				self.make(d)
			except BaseException:
				shutil.rmtree(d, ignore_errors=True)
				raise
			open(os.path.join(d, ".done"), "w").close()
		return d


def compile_many(jobs):
	"""jobs: list of (cc, flags, source, object)"""
	with concurrent.futures.ThreadPoolExecutor(8) as pool:
		list(pool.map(lambda j: run([j[0], *j[1], "-c", j[2], "-o", j[3]]), jobs))


def compile_lib(d, cc, flags):
	jobs = []
	for s in sources():
		jobs.append((cc, flags, s, os.path.join(d, os.path.basename(s)[:-2] + ".o")))
	compile_many(jobs)
	return [j[3] for j in jobs]


def driver(san="asan", cc="gcc", opt="-O1", source="locdrv.c", extra=()):
	"""The script driver, statically linked with an instrumented libloc"""
	flags = {
		"asan": SAN,
		"tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
		"plain": [],
	}[san]
	src = os.path.join(HARNESS, source)

	def make(d):
		cflags = [*BASE, opt, *flags, *extra]
		objects = compile_lib(d, cc, cflags)
		link = []
		drv = [f for f in cflags if f != "-DLIBLOC_PRIVATE"]
		if san in ("asan", "plain") and source == "locdrv.c":
			drv += ["-DWRAP_ALLOC", "-DWRAP_RESOLV", "-DWRAP_CLOCK"]
			link += ["-Wl,--wrap=%s" % w for w in WRAPS + ["time", "gettimeofday", "clock_gettime"]]
			if san == "asan":
				drv += ["-DWRAP_MMAP"]
				link += ["-Wl,--wrap=mmap", "-Wl,--wrap=mmap64", "-Wl,--wrap=munmap"]
			# The driver itself must not be subject to faults: its own calls go to the real ones
			drv += ["-Dmalloc=__real_malloc", "-Dcalloc=__real_calloc", "-Drealloc=__real_realloc", "-Dstrdup=__real_strdup",
				"-include", os.path.join(HARNESS, "real.h")]
		link += ["-Wl,--wrap=res_query", "-Wl,--wrap=__res_query"]
		run([cc, *drv, "-c", src, "-o", os.path.join(d, "drv_.o")])
		run([cc, *flags, "-o", os.path.join(d, "drv"), os.path.join(d, "drv_.o"), *objects, *link,
			"-lcrypto", "-lresolv", "-lpthread"])

	extra_inputs = [os.path.join(HARNESS, "real.h")]
	return os.path.join(
		Variant("drv-%s-%s%s-%s%s" % (san, cc, opt, source.split(".")[0], "".join(extra).replace("-D", "-")), lib_inputs() + [src, *extra_inputs],
			(san, cc, opt, flags, list(extra), BASE, WRAPS, 5), make).get(), "drv")


def shared(san="asan"):
	"""libloc.so, honouring the version script, plus the Python, Lua and Perl bindings"""
	flags = SAN if san == "asan" else []
	inputs = lib_inputs() + ["%s/src/libloc.sym" % REPO]
	for pattern in ("src/python/*.[ch]", "src/lua/*.[ch]", "src/perl/*.xs", "src/perl/typemap", "src/perl/lib/*.pm",
			"src/python/location/*.py", "src/scripts/*.in"):
		inputs += glob.glob(os.path.join(REPO, pattern))

	def make(d):
		opt = ["-O1", *flags]
		objdir = os.path.join(d, "obj")
		os.makedirs(objdir)
		objects = compile_lib(objdir, "gcc", [*BASE, *opt, "-fvisibility=hidden"])
		lib = os.path.join(d, "lib")
		os.makedirs(lib)
		run(["gcc", *flags, "-shared", "-o", os.path.join(lib, "libloc.so.1"), *objects,
			"-Wl,-soname,libloc.so.1", "-Wl,--version-script=%s/src/libloc.sym" % REPO, "-lcrypto", "-lresolv"])
		os.symlink("libloc.so.1", os.path.join(lib, "libloc.so"))

		bindflags = [f for f in BASE if f != "-DLIBLOC_PRIVATE"]

		# Python
		jobs, groups = [], {}
		pyinc = sysconfig_include()
		for kind, inc in (("python", pyinc), ("lua", ["-I/usr/include/lua5.4"])):
			groups[kind] = []
			for s in sorted(glob.glob("%s/src/%s/*.c" % (REPO, kind))):
				o = os.path.join(objdir, "%s-%s.o" % (kind, os.path.basename(s)[:-2]))
				jobs.append(("gcc", [*bindflags, *opt, *inc], s, o))
				groups[kind].append(o)
		# Perl
		perl = perl_config()
		xs_c = os.path.join(objdir, "Location_xs.c")
		with open(xs_c, "w") as f:
			p = subprocess.run([os.path.join("/usr/bin", "xsubpp"), "-noprototypes", "-typemap", perl["typemap"],
				"-typemap", "%s/src/perl/typemap" % REPO, "%s/src/perl/Location.xs" % REPO],
				stdout=f, stderr=subprocess.PIPE, text=True)
			if p.returncode:
				raise BuildError("xsubpp: %s" % p.stderr)
		o = os.path.join(objdir, "perl-Location.o")
		jobs.append(("gcc", ["-g", "-w", "-fPIC", *opt, *perl["ccflags"], "-DVERSION=\"0.01\"", "-DXS_VERSION=\"0.01\"",
			"-I%s/src" % REPO, "-I%s/src/perl" % REPO, "-I%s" % perl["core"]], xs_c, o))
		groups["perl"] = [o]
		compile_many(jobs)

		for kind, name in (("python", "python/_location.so"), ("lua", "lua/location.so"),
				("perl", "perl/auto/Location/Location.so")):
			target = os.path.join(d, name)
			os.makedirs(os.path.dirname(target), exist_ok=True)
			run(["gcc", *flags, "-shared", "-o", target, *groups[kind], "-L%s" % lib, "-lloc",
				"-Wl,-rpath,%s" % lib])

		shutil.copy("%s/src/perl/lib/Location.pm" % REPO, os.path.join(d, "perl", "Location.pm"))
		shutil.copytree("%s/src/python/location" % REPO, os.path.join(d, "python", "location"),
			ignore=shutil.ignore_patterns("__pycache__"))
		bindir = os.path.join(d, "bin")
		os.makedirs(bindir)
		for script in ("location", "location-importer"):
			with open("%s/src/scripts/%s.in" % (REPO, script)) as f:
				text = f.read()
			for k, v in (("VERSION", "0.9.17"), ("databasedir", "/nonexistent/lib/location"), ("prefix", "/usr"),
					("bindir", "/usr/bin")):
				text = text.replace("@%s@" % k, v)
			with open(os.path.join(bindir, script), "w") as f:
				f.write(text)
			os.chmod(os.path.join(bindir, script), 0o755)

	return Variant("shared-%s" % san, inputs, (san, flags, BASE, 4), make).get()


def preload():
	"""The library that disturbs file operations"""
	src = os.path.join(HARNESS, "crash.c")

	def make(d):
		run(["gcc", "-O1", "-g", "-w", "-fPIC", "-shared", "-o", os.path.join(d, "crash.so"), src, "-ldl", "-lpthread"])
	return os.path.join(Variant("crash", [src], (1,), make).get(), "crash.so")


def sysconfig_include():
	out = run(["/usr/bin/python3", "-c",
		"import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_paths()['platinclude'])"])
	return ["-I%s" % l for l in dict.fromkeys(out.split())]


def perl_config():
	out = run(["perl", "-MConfig", "-MExtUtils::ParseXS", "-e",
		r'print "$Config{archlibexp}/CORE\n$Config{ccflags}\n"; for (@INC) { print "$_/ExtUtils/typemap\n" if -e "$_/ExtUtils/typemap" }'])
	lines = out.split("\n")
	return {"core": lines[0], "ccflags": [f for f in lines[1].split() if not f.startswith(("-O", "-flto"))], "typemap": lines[2]}


def libasan():
	return run(["gcc", "-print-file-name=libasan.so"]).strip()


if __name__ == "__main__":
	for what in sys.argv[1:] or ["asan", "shared"]:
		if what.startswith("shared"):
			print(shared(what.partition("-")[2] or "asan"))
		else:
			print(driver(what))
