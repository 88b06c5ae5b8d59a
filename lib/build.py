"""Builds harness programs against the current sources of /repo, in a scratch directory."""
import glob, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WRAPPED = ["pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_mutex_unlock", "nextToken", "malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset",
           "strlen", "strcmp", "strcpy", "strncpy", "strcat"]

class BuildError(Exception):
    pass

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("latin-1")[-4000:]))

INC = ["DFABuilder/include", "DFABuilder/interface", "JSONPathParser", "JSONQuery"]

class Builder:
    """kind: plain, asan (address and undefined behaviour), tsan"""
    def __init__(self, scratch, kind="plain"):
        self.dir = os.path.join(scratch, "build-" + kind)
        os.makedirs(self.dir)
        self.kind = kind
        san = {"plain": ["-O1"], "opt": ["-O2"],
               "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
               "tsan": ["-O1", "-fsanitize=thread"],
               # the instrumentation of ThreadSanitizer, but harness/verif_sched.c instead of its runtime
               "sched": ["-O1", "-fsanitize=thread", "-fno-builtin", "-DVERIF_SCHED"]}[kind]
        self.flags = san + ["-g", "-w", "-D_GNU_SOURCE", "-DNDEBUG", "-DJPSTREAM_VERIF", "-I" + self.dir] + \
            ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + os.path.join(HERE, "harness")]
        if kind == "plain" or kind == "opt":
            self.flags.append("-mcmodel=medium")
        self.objs = None

    def library(self):
        if self.objs is not None:
            return
        d = self.dir
        sh(["bison", "-d", "-o", d + "/parser_j.c", REPO + "/JSONPathParser/parser_j.y"])
        sh(["flex", "--header-file=" + d + "/scanner_j.h", "-o", d + "/scanner_j.c", REPO + "/JSONPathParser/scanner_j.l"])
        jobs = []
        for f in sorted(glob.glob(REPO + "/DFABuilder/src/**/*.cpp", recursive=True)):
            jobs.append((["g++", "-std=c++11"], f))
        for f in sorted(glob.glob(REPO + "/JSONPathParser/*.c")):
            jobs.append((["gcc", "-std=gnu99"], f))
        for f in sorted(glob.glob(REPO + "/JSONQuery/*.c")) + [d + "/parser_j.c", d + "/scanner_j.c"]:
            jobs.append((["gcc", "-std=gnu99"], f))
        def go(k):
            cc, f = jobs[k]
            o = "%s/%d_%s.o" % (d, k, os.path.basename(f))
            sh(cc + self.flags + ["-c", f, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            self.objs = list(ex.map(go, range(len(jobs))))

    def program(self, name, extra=(), link=(), out=None):
        """links harness/<name>.c or .cpp with the library"""
        self.library()
        src = os.path.join(HERE, "harness", name)
        out = os.path.join(self.dir, out or os.path.splitext(name)[0])
        cc = ["g++", "-std=c++11"] if name.endswith(".cpp") else ["gcc", "-std=gnu99"]
        sh(cc + self.flags + list(extra) + ["-c", src, "-o", out + ".o"])
        if self.kind == "sched":
            so = os.path.join(self.dir, "sched.o")
            sh(["gcc", "-std=gnu99", "-O2", "-g", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-I" + os.path.join(REPO, "JSONQuery"), "-c", os.path.join(HERE, "harness", "verif_sched.c"), "-o", so])
            sh(["g++", out + ".o"] + self.objs + [so, "-Wl," + ",".join("--wrap=" + x for x in WRAPPED), "-lpthread", "-o", out])
            return out
        lf = [x for x in self.flags if x.startswith("-fsanitize") or x.startswith("-mcmodel")]
        sh(["g++"] + lf + [out + ".o"] + self.objs + list(link) + ["-lpthread", "-o", out])
        return out

def scratch():
    base = None
    if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30):
        base = "/dev/shm"
    return tempfile.mkdtemp(prefix="jpv-", dir=base)
