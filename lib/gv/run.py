"""Running the prover binary and reading what it prints."""
import os, re, subprocess, signal, time, json, resource

SZS = re.compile(r'^% SZS status (\S+) for (.*)$', re.M)
RES = re.compile(r'% RES : (VALID|NOT VALID)')

def _limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def goeland(binary, path, opts=(), timeout=3.0, env=None, cwd=None, stdin=None):
    """-> dict(status, res, rc, out, err, wall, timeout)"""
    e = dict(os.environ)
    e.pop("GV_DUMP", None); e.pop("GV_PROOF", None)
    if env: e.update(env)
    t = time.time()
    p = subprocess.Popen([binary] + list(opts) + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         text=True, errors="replace", env=e, cwd=cwd, preexec_fn=_limits)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
    m = SZS.search(out); r = RES.search(out)
    return {"status": m.group(1) if m else None, "name": m.group(2) if m else None, "res": r.group(1) if r else None,
            "rc": p.returncode, "out": out, "err": err, "wall": time.time() - t, "timeout": to}

def proof_block(out):
    m = re.search(r'% SZS output start Proof for [^\n]*\n(.*?)(?:% SZS output end Proof|\Z)', out, re.S)
    return m.group(1) if m else None
