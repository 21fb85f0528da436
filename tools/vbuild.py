#!/usr/bin/env python3
"""Builds verification binaries from /repo's current working tree.

Objects are cached under /verif/build by content hash (source, all headers,
flags), so an unchanged tree costs nothing and any change is always seen.
"""
import concurrent.futures, fnmatch, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LIB = os.path.join(REPO, "libamqpprox")
SRC = os.path.join(VERIF, "src")
CXX = "clang++"
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout

FLAVOURS = {
    # address-sanitised, single-threaded exploration
    "asan": dict(cflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 ldflags=["-fsanitize=address"]),
    # plain
    "plain": dict(cflags=["-O1", "-g1"], ldflags=[]),
    # memory accesses and synchronisation reported to our own scheduler
    # (the runtime in src/thr/rt.cpp takes the sanitizer's place; files in
    # "raw" are not instrumented)
    "thr": dict(cflags=["-O1", "-g1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_ASSERTIONS"],
                ldflags=["-rdynamic"], raw=["rt.cpp", "explore.cpp", "vtime.cpp"], rawflags=["-O1", "-g1", "-fno-threadsafe-statics"], libfirst=True),
}
COMMON = ["-std=c++17", "-DSOCKET_TESTING", "-DNDEBUG", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_LOG_DYN_LINK",
          "-pthread", "-w", "-fno-strict-aliasing"]
LIBS = ["-lboost_log", "-lboost_thread", "-lboost_timer", "-lboost_system", "-lssl", "-lcrypto", "-lprotobuf", "-lpthread", "-ldl"]

class Builder:
    def __init__(self, flavour):
        self.fl = FLAVOURS[flavour]
        self.flavour = flavour
        self.dir = os.path.join(BUILD, flavour)
        os.makedirs(self.dir, exist_ok=True)
        self.gen = None
        self.compiled = 0

    def protos(self):
        files = sorted(glob.glob(os.path.join(REPO, "authproto", "*.proto")))
        key = sha(*[read(f) for f in files])
        out = os.path.join(BUILD, "proto-" + key)
        if not os.path.isdir(out):
            tmp = out + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            run(["protoc", "-I" + os.path.join(REPO, "authproto"), "--cpp_out=" + tmp] + files)
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.gen = out
        return sorted(glob.glob(os.path.join(out, "*.pb.cc")))

    def includes(self):
        return ["-I" + os.path.join(SRC, "shadow"), "-I" + os.path.join(SRC, "common"), "-I" + LIB, "-I" + self.gen]

    def cflags(self):
        return COMMON + self.fl["cflags"]

    def prepare(self):
        self.proto_src = self.protos()
        hdrs = sorted(glob.glob(os.path.join(LIB, "*.h"))) + sorted(glob.glob(os.path.join(SRC, "shadow", "*.h"))) \
            + sorted(glob.glob(os.path.join(self.gen, "*.h")))
        self.hdrkey = sha(*[os.path.basename(h) + ":" + sha(read(h)) for h in hdrs])
        pre = os.path.join(SRC, "common", "prelude.h")
        key = sha(read(pre), " ".join(self.cflags()), str(os.stat(pre).st_mtime_ns), pre)  # the compiler wants the very file
        self.pch = os.path.join(self.dir, "prelude-%s.pch" % key)
        if not os.path.exists(self.pch):
            tmp = self.pch + ".tmp%d" % os.getpid()
            run([CXX] + self.cflags() + ["-x", "c++-header", "-fpch-instantiate-templates", "-fpch-validate-input-files-content", pre, "-o", tmp])
            os.rename(tmp, self.pch)

    def obj(self, src, extra=(), extrakey=""):
        raw = os.path.basename(src) in self.fl.get("raw", ())
        flags = COMMON + self.fl["rawflags"] if raw else self.cflags() + ["-fpch-validate-input-files-content", "-include-pch", self.pch]
        key = sha(read(src), self.hdrkey, " ".join(COMMON + self.fl["rawflags"] if raw else self.cflags()), " ".join(extra), extrakey, os.path.basename(src))
        o = os.path.join(self.dir, "%s-%s.o" % (os.path.splitext(os.path.basename(src))[0], key))
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            run([CXX] + flags + self.includes() + list(extra) + ["-c", src, "-o", tmp])
            os.rename(tmp, o)
            self.compiled += 1
        return o

    def build(self, name, sources, ldextra=(), skip=(), programs=()):
        """Compile harness `sources` (relative to src/) and link them with the library.

        `skip` lists library files (shell patterns) the harness should not
        need; if linking without them fails they are compiled after all.
        `programs` lists directories of the repository whose main() is linked
        in as <directory>_main()."""
        self.prepare()
        libsrc = [f for f in sorted(glob.glob(os.path.join(LIB, "*.cpp"))) if os.path.basename(f) != "amqpprox_logging.cpp"]
        hs = [os.path.join(SRC, s) for s in sources] + [os.path.join(SRC, "common", "vlog.cpp")]
        hkey = sha(*[read(f) for f in sorted(glob.glob(os.path.join(SRC, "**", "*.h"), recursive=True))])
        progs = []
        for d in programs:
            at = os.path.join(REPO, d)
            pk = sha(*[os.path.basename(h) + ":" + sha(read(h)) for h in sorted(glob.glob(os.path.join(at, "*.h")))])
            progs += [(f, pk, ("-Dmain=%s_main" % d, "-I" + at)) for f in sorted(glob.glob(os.path.join(at, "*.cpp")))]
        big = {"amqpprox_session.cpp": 9, "amqpprox_httpauthintercept.cpp": 10, "amqpprox_server.cpp": 8, "amqpprox_control.cpp": 7}
        def attempt(libs):
            jobs = [(s, hkey, ()) for s in hs] + progs + [(s, "", ()) for s in sorted(libs, key=lambda f: -big.get(os.path.basename(f), 0) * 1000000 - os.path.getsize(f))] + [(s, "", ()) for s in self.proto_src]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(lambda j: self.obj(j[0], extra=j[2], extrakey=j[1]), jobs))
            key = sha(*[os.path.basename(o) for o in objs], " ".join(ldextra))
            exe = os.path.join(self.dir, "%s-%s" % (name, key))
            if not os.path.exists(exe):
                nh = len(hs) + len(progs)
                lib = exe + ".a"
                if os.path.exists(lib):
                    os.unlink(lib)
                run(["ar", "qcT", lib] + objs[nh:])
                tmp = exe + ".tmp%d" % os.getpid()
                try:
                    inputs = ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] + objs[:nh] if self.fl.get("libfirst") else objs[:nh] + [lib]
                    run([CXX] + self.fl["ldflags"] + inputs + list(ldextra) + LIBS + ["-o", tmp])
                finally:
                    os.unlink(lib)
                os.rename(tmp, exe)
            return exe
        few = [f for f in libsrc if not any(fnmatch.fnmatch(os.path.basename(f), "amqpprox_" + p + ".cpp") for p in skip)]
        if len(few) < len(libsrc):
            try:
                return attempt(few)
            except BuildError as e:
                if "undefined reference" not in str(e) and "undefined symbol" not in str(e):
                    raise
        return attempt(libsrc)

if __name__ == "__main__":
    t = time.time()
    b = Builder(sys.argv[1])
    try:
        print(b.build(sys.argv[2], sys.argv[3:]), b.compiled, "compiled", round(time.time() - t, 1), "s")
    except BuildError as e:
        print(e)
        sys.exit(2)
