"""R01: a failed operating-system call surfaces as SysErr carrying that failure's errno.

For every primitive and every failing OS call site reachable from it, the value-provenance
analysis is run under the assumption "this call fails here" (its result is the documented
failure value, its out-parameters are undefined).  States in which the failure happened are kept
apart from those in which it did not.  On every path from the failure to a return, the returned
value must be the one produced by the raise helper with errno intact -- unless the reviewed table
below says that the failure value is a documented ordinary answer for that primitive."""
from .prims import *

# documented failure value of each OS call the runtime uses: ('i', v)
NEG1 = """open creat close read write lseek dup dup2 pipe fcntl fsync fdatasync ioctl access chdir chmod chown
fchmod fchown ftruncate truncate link unlink mkdir mkfifo rmdir rename symlink readlink stat fstat
lstat utime utimes umask_never pathconf fpathconf sysconf getgroups setgid setuid setpgid setsid uname times
fork execv execve execvp kill waitpid wait poll select tcdrain tcflow tcflush tcgetattr
tcgetpgrp tcsendbreak tcsetattr tcsetpgrp cfsetispeed cfsetospeed cfsetspeed socket socketpair accept bind
connect listen shutdown recv recvfrom send sendto getsockopt setsockopt getsockname getpeername gethostname
getitimer setitimer gettimeofday sigaction sigprocmask getrusage mktime mkstemp closedir nanosleep
pause_never __fxstat __xstat __lxstat clock_gettime clock_getres fchdir rewinddir_never""".split()
NULLS = """getcwd opendir readdir getlogin ttyname fopen fdopen tmpnam tempnam
getpwnam getpwuid getgrnam getgrgid gethostbyname gethostbyaddr getnetbyname getnetbyaddr getprotobyname
getprotobynumber getservbyname getservbyport getrpcbyname getrpcbynumber getenv localtime gmtime dlopen dlsym
ctermid_never realpath localtime_r gmtime_r""".split()
FAIL = {n: ("i", -1) for n in NEG1}
FAIL.update({n: ("i", 0) for n in NULLS})

# calls that leave errno alone (POSIX / glibc)
ERRNO_SAFE = """memcpy memset memmove strlen strcpy strncpy strcmp strncmp strcat strerror htons htonl ntohs ntohl
cfgetispeed cfgetospeed __builtin_memcpy __builtin_memset free __errno_location exit _exit abort sprintf snprintf
__builtin_object_size isatty_never bcopy bzero strchr strrchr""".split()
ERRNO_SAFE = set(ERRNO_SAFE)

ERRNO = ("P", ("errnop",), ("i", 0))
NONE = ("i", 1)          # also unit / nil / false: the tagged integer 0
EMPTY = ("&", ("E", ("G", "_ML_string0"), ("i", 1)))

# (primitive, OS call) -> (allowed non-raise outcomes, reason).  'alt' = SysErr with the
# primitive's own text; '*' = outcome of this failure is not an error for the caller.
ALLOWED = {
    ("*", "getenv"): ({NONE}, "an absent variable is NONE"),
    ("*", "gethostbyname"): ({NONE}, "unknown host is NONE"),
    ("*", "gethostbyaddr"): ({NONE}, "unknown address is NONE"),
    ("*", "getnetbyname"): ({NONE}, "unknown network is NONE"),
    ("*", "getnetbyaddr"): ({NONE}, "unknown network is NONE"),
    ("*", "getprotobyname"): ({NONE}, "unknown protocol is NONE"),
    ("*", "getprotobynumber"): ({NONE}, "unknown protocol is NONE"),
    ("*", "getservbyname"): ({NONE}, "unknown service is NONE"),
    ("*", "getservbyport"): ({NONE}, "unknown service is NONE"),
    ("*", "getrpcbyname"): ({NONE}, "unknown rpc is NONE"),
    ("*", "getrpcbynumber"): ({NONE}, "unknown rpc is NONE"),
    ("*", "dlopen"): ("*", "null handle is tested by the ML side, which raises with dlerror"),
    ("*", "dlsym"): ("*", "null address is tested by the ML side, which raises with dlerror"),
    ("_ml_P_FileSys_access", "access"): ({NONE}, "access answers a question: failure is false"),
    ("_ml_P_TTY_getwinsz", "ioctl"): ({NONE}, "not a terminal is NONE"),
    ("_ml_P_ProcEnv_getlogin", "getlogin"): ({"alt"}, "own message"),
    ("_ml_P_ProcEnv_ttyname", "ttyname"): ({"alt"}, "own message"),
    ("_ml_Date_mktime", "mktime"): ({"alt"}, "mktime sets no errno"),
    ("_ml_Date_strftime", "mktime"): ({"alt"}, "mktime sets no errno"),
    ("_ml_Date_localOffset", "mktime"): ("*", "-1 is also a valid time; input came from gmtime_r"),
    ("_ml_Date_localOffsetForTime", "mktime"): ("*", "-1 is also a valid time; input came from gmtime_r"),
    ("_ml_OS_tmpname", "getenv"): ("*", "TMPDIR unset: fall back to the default directory"),
    ("_ml_OS_tmpname", "close"): ("*", "closing a descriptor just created; nothing was written"),
    ("_ml_RunT_export_heap", "fopen"): ({"alt"}, "own message"),
    ("_ml_RunT_export_fun", "fopen"): ({"alt"}, "own message"),
    ("_ml_Prof_setpref", "sigaction"): ("*", "valid signal number and handler: cannot fail"),
    ("_ml_Sig_getsigstate", "sigaction"): ("*", "signal number comes from the runtime's own list: cannot fail"),
    ("_ml_Sig_setsigstate", "sigaction"): ("*", "signal number comes from the runtime's own list: cannot fail"),
    ("_ml_Sig_getsigmask", "sigprocmask"): ("*", "query form cannot fail"),
    ("_ml_Sig_setsigmask", "sigprocmask"): ("*", "SIG_SETMASK with a valid set cannot fail"),
    ("_ml_Time_gettime", "getrusage"): ("*", "RUSAGE_SELF cannot fail"),
    ("_ml_Time_timeofday", "gettimeofday"): ("*", "cannot fail with a valid address"),
    ("_ml_P_Process_sleep", "nanosleep"): ("*", "an interrupted sleep answers the time left"),
}
# errno values that mean something other than failure for the call
BENIGN_ERRNO = {"getcwd": {34}, "getgroups": {22}, "readdir": {0}, "pathconf": {0}, "fpathconf": {0}, "sysconf": {0}}
# primitives outside the rule: (reason)
SKIP_FILES = ("gc/",)
# the call may be retried / replaced by a fall-back: the later call decides
FALLBACK = {("_ml_OS_tmpname", "mkstemp")}


class Obs(RT):
    target = None
    err = 5

    def __init__(self, P):
        super().__init__(P)
        self.sites = set()
        self.cmp = set()
        self.ext = set()

    def inline(self, f, name):
        g = super().inline(f, name)
        if g is not None and g.file.startswith("gc/") and not g.file.endswith("ml-objects.c"):
            return None
        return g

    def on_external(self, st, f, name, args, line, site):
        self.ext.add(name)
        s = (f.file, f.name, line, name)
        if name in FAIL and not f.file.startswith(SKIP_FILES):
            self.sites.add(s)
        if self.target == s:
            st.flags = frozenset(["failed"])
            if self.err is not None:
                st.env[ERRNO] = frozenset([("i", self.err)])
            return frozenset([FAIL[name]])
        if name not in ERRNO_SAFE:
            st.env[ERRNO] = TOPS
        return None

    def external(self, f, st, name, av, line, site):
        r = super().external(f, st, name, av, line, site)
        if self.target == (f.file, f.name, line, name):
            # out-parameters of a failed call are undefined: keep whatever the analysis has
            pass
        return r

    def op2(self, o, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "ldi" and x[1] == ERRNO and y[0] == "i":
                self.cmp.add(y[1])
            if x == ("i", self.err) and y[0] == "i" and self.target:
                pass
        return super().op2(o, a, b)

    def load(self, st, loc, ptr, ty, f, line):
        if loc == ERRNO and self.target is None:
            return frozenset([("ldi", ERRNO)])
        return super().load(st, loc, ptr, ty, f, line)

    def intrinsic(self, st, f, name, av, line, site):
        r = super().intrinsic(st, f, name, av, line, site)
        if name == "RaiseSysError" and r:
            s, v = r[0]
            if self.err is None:
                return r
            if v == frozenset([("raise", "errno")]) and s.flags and \
                    s.env.get(ERRNO) != frozenset([("i", self.err)]):
                return [(s, frozenset([("raise", "clobbered")]))]
        return r


def allowed(fn, callee):
    a = ALLOWED.get((fn, callee)) or ALLOWED.get(("*", callee))
    return a


def check(c):
    from . import program
    c.rule = ("assume-failure dataflow: for each primitive and OS call site, with the call's documented failure "
              "value and errno, every path from the failure to a return yields the SysErr raise with errno intact")
    P = program.Program()
    prims = primitives(P)
    nprim = nsite = nrun = exempt = 0
    ext = set()
    fns = set()
    for lib, nm, fn, f in prims:
        c.require(f is not None, "no definition for primitive %s.%s (%s)" % (lib, nm, fn))
        o = Obs(P)
        o.run(f)
        ext |= o.ext
        fns |= o.functions_seen
        nprim += 1
        for s in sorted(o.sites):
            callee = s[3]
            nsite += 1
            al = allowed(fn, callee)
            if al and al[0] == "*":
                exempt += 1
                continue
            if (fn, callee) in FALLBACK and not last_of(o, s):
                exempt += 1
                continue
            ok_vals = al[0] if al else set()
            if 0 in BENIGN_ERRNO.get(callee, ()):
                # "no such limit" / "no more entries": the failure value without an errno
                u = Obs(P)
                u.target = s
                u.err = None
                bad = False
                for st, v in u.run(f):
                    if st.flags and ("raise", "errno") in v:
                        bad = True
                nrun += 1
                c.ob(not bad, "%s: %s at %s:%d answers without setting errno -> no SysErr" % (fn, callee, s[0], s[2]))
                if bad:
                    c.violation("%s|%s|stale-errno" % (fn, callee), "base/runtime/%s:%d" % (s[0], s[2]),
                                "%s.%s: when %s answers its failure value without setting errno (no limit, end of "
                                "directory) the primitive raises SysErr with an errno left by an earlier call" % (lib, nm, callee))
            errs = {5} | (o.cmp - BENIGN_ERRNO.get(callee, set()) - {0})
            if 0 in o.cmp and callee not in BENIGN_ERRNO:
                errs = errs
            for e in sorted(errs):
                u = Obs(P)
                u.target = s
                u.err = e
                rets = u.run(f)
                nrun += 1
                bad = None
                hit = False
                for st, v in rets:
                    if not st.flags:
                        continue
                    hit = True
                    for x in v:
                        if x == ("raise", "errno"):
                            continue
                        if x == ("raise", "alt") and "alt" in ok_vals:
                            continue
                        if x in ok_vals:
                            continue
                        bad = x
                c.ob(bad is None, "%s: %s fails at %s:%d (errno %d) -> SysErr" % (fn, callee, s[0], s[2], e))
                if bad is not None:
                    kind = {"raise": "raises SysErr without this failure's errno"}.get(
                        bad[0], "the primitive returns an ordinary value (%s)" % show(bad))
                    c.violation("%s|%s|%s" % (fn, callee, "errno-lost" if bad[0] == "raise" else "swallowed"),
                                "base/runtime/%s:%d" % (s[0], s[2]),
                                "%s.%s: when %s fails (errno %d) %s" % (lib, nm, callee, e, kind))
    c.cov.update(primitives=nprim, call_sites=nsite, exempt_sites=exempt, failure_runs=nrun,
                 functions=len(fns), os_calls=sorted(x for x in ext if x in FAIL))
    c.assumptions += ["OS calls fail only with their documented failure value",
                      "exempt (primitive, call) pairs and reasons are listed in enginea/r01.py"]
    c.require(nprim >= 150 and nsite >= 100, "primitives/call sites vanished: %d/%d" % (nprim, nsite))


def last_of(o, s):
    same = [x for x in o.sites if x[0] == s[0] and x[3] == s[3]]
    return s == max(same, key=lambda x: x[2])


def show(t):
    s = repr(t)
    return s if len(s) < 90 else s[:87] + "..."
