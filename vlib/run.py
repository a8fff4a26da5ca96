"""Runs scripts on a driver and collects the recorded events."""
import json, os, resource, shutil, signal, subprocess, tempfile, glob

SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=%d:detect_stack_use_after_return=0:handle_abort=1:max_malloc_fill_size=4096:malloc_fill_byte=%d:"
                           "allocator_may_return_null=1:log_path=%s:print_summary=1:strict_string_checks=1:detect_container_overflow=1:quarantine_size_mb=64",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:log_path=%s"}


class Result:
    """events: one per command that completed; dead: None or what ended the run; timeout: it had to be stopped."""
    __slots__ = ("events", "dead", "timeout", "finished", "report", "rc")


def _limits(stack_mb, as_gb):
    def f():
        os.setpgid(0, 0)
        try: resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, stack_mb << 20))
        except (ValueError, OSError):
            try: resource.setrlimit(resource.RLIMIT_STACK, (resource.getrlimit(resource.RLIMIT_STACK)[1],) * 2)
            except (ValueError, OSError): pass
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if as_gb: resource.setrlimit(resource.RLIMIT_AS, (as_gb << 30, as_gb << 30))
    return f


def execute(binary, lines, timeout=240, san=True, leaks=False, stack_mb=512, env=None, as_gb=0, wrap=(), fill=190):
    d = tempfile.mkdtemp(prefix="verif-")
    try:
        with open(d + "/script", "w") as f: f.write("\n".join(lines) + "\n")
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": d}
        if san:
            e["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"] % (1 if leaks else 0, fill, d + "/san")
            e["UBSAN_OPTIONS"] = SAN_ENV["UBSAN_OPTIONS"] % (d + "/san")
            e["LSAN_OPTIONS"] = "exitcode=78:log_threads=0"
        if env: e.update(env)
        r = Result()
        r.timeout, r.dead, r.report = False, None, ""
        with open(d + "/err", "wb") as err:
            p = subprocess.Popen(list(wrap) + [binary, d + "/script", d + "/out"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=err if wrap else subprocess.DEVNULL, env=e, preexec_fn=_limits(stack_mb, as_gb), cwd=d)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                r.timeout = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
                rc = p.wait()
        r.rc, r.events, r.finished = rc, [], False
        try:
            with open(d + "/out", "rb") as f: data = f.read()
        except OSError: data = b""
        for ln in data.split(b"\n"):
            if not ln: continue
            try: ev = json.loads(ln)
            except ValueError: break
            if "end" in ev and len(ev) == 1: r.finished = True
            else: r.events.append(ev)
        for f in sorted(glob.glob(d + "/san*")):
            with open(f, errors="replace") as g: r.report += g.read(6000)
        if wrap:
            with open(d + "/err", errors="replace") as g: r.report += g.read(6000)
        if not r.timeout and (rc != 0 or not r.finished):
            if r.report: r.dead = summary(r.report)
            elif rc < 0: r.dead = "killed by signal %s" % (signal.Signals(-rc).name if -rc in [s.value for s in signal.Signals] else -rc)
            else: r.dead = "exit status %d" % rc
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def summary(report):
    for ln in report.split("\n"):
        if "SUMMARY:" in ln: s = ln.strip(); break
    else: s = next((l for l in report.split("\n") if "ERROR" in l or "runtime error" in l or "Assertion" in l), report[:200])
    first = next((l.strip() for l in report.split("\n") if "runtime error" in l or "ERROR:" in l), "")
    return (s + " | " + first)[:400]


def hx(b):
    if isinstance(b, str): b = b.encode("latin1")
    return b.hex() or "-"


def unhx(s): return bytes.fromhex(s)
