"""Scratch builds of GoelandProver/Goeland from /repo's current working tree."""
import os, shutil, subprocess, tempfile, atexit, sys

REPO = os.environ.get("GV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HARNESS = os.path.join(VERIF, "harness")


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GO111MODULE="on", GONOSUMDB="*", GONOSUMCHECK="1",
               GOFLAGS_EXTRA="")
    env.pop("GOFLAGS_EXTRA")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.setdefault("HOME", "/root")
    env["PATH"] = "/opt/vp/bin:/usr/local/go/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


class BuildError(Exception):
    pass


class Build:
    """A private copy of /repo/src with harness files laid in; removed at exit."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="gv-build-")
        atexit.register(self.close)
        self.src = os.path.join(self.root, "src")
        shutil.copytree(os.path.join(REPO, "src"), self.src,
                        ignore=shutil.ignore_patterns("_build", "y.output", "tptp_parse.go", "zz_verif*"), symlinks=True)
        self.env = go_env()
        self._run(["goyacc", "-l", "-p", "TPTP", "-o", "./Parser/tptp_parse.go", "./Parser/tptp_parse.y"])

    def _run(self, cmd, **kw):
        p = subprocess.run(cmd, cwd=self.src, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
        if p.returncode != 0:
            raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
        return p.stdout

    def goeland(self, tags=None, race=False, name="goeland", dump=True, form=False):
        """Build the prover (plus the structural proof dumper, plus the dumper of the formula read) and return the binary path."""
        for f in ["zz_verif_dump.go"] * (dump or form) + ["zz_verif_form.go"] * form:
            shutil.copy(os.path.join(HARNESS, "dump", f), self.src)
        out = os.path.join(self.root, "bin", name)
        cmd = ["go", "build"]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        self._run(cmd + ["-o", out, "."])
        return out

    def harness(self, comp, tags=None, race=False):
        """Build /verif/harness/<comp>/ as a main package inside the module; return the binary path."""
        d = os.path.join(self.src, "zz_verif_" + comp)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        shared = os.path.join(HARNESS, "shared")
        for base in (shared, os.path.join(HARNESS, comp)):
            if os.path.isdir(base):
                for f in os.listdir(base):
                    if f.endswith(".go"):
                        shutil.copy(os.path.join(base, f), d)
        out = os.path.join(self.root, "bin", comp)
        cmd = ["go", "build"]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        self._run(cmd + ["-o", out, "./zz_verif_" + comp])
        return out

    def lay(self, path, text):
        """Put a further file into the copy (path relative to src)."""
        with open(os.path.join(self.src, path), "w") as f: f.write(text)

    def tmp(self, name):
        d = os.path.join(self.root, "tmp")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def close(self):
        if self.root.startswith(tempfile.gettempdir()) and os.path.isdir(self.root):
            shutil.rmtree(self.root, ignore_errors=True)


def drive(binary, requests, timeout=60, env=None):
    """Feed a harness one JSON request per line; -> list of responses (a crash of the program, or no answer to one
    request for `timeout` seconds, shows as {"panic": ...})."""
    import json, select, threading
    out, todo = [], list(requests)
    while todo:
        err = tempfile.TemporaryFile()
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env)
        data = "".join(json.dumps(r) + "\n" for r in todo).encode()

        def feed(p=p, data=data):
            try:
                p.stdin.write(data)
                p.stdin.close()
            except OSError:
                pass
        threading.Thread(target=feed, daemon=True).start()
        buf, got, hung = b"", 0, False
        while True:
            if not select.select([p.stdout], [], [], timeout)[0]:
                hung = True
                break
            d = os.read(p.stdout.fileno(), 1 << 16)
            if not d:
                break
            buf += d
            *lines, buf = buf.split(b"\n")
            for l in lines:
                if l.startswith(b"{") and l.endswith(b"}"):
                    out.append(json.loads(l))
                    got += 1
        p.kill()
        p.wait()
        p.stdout.close()
        todo = todo[got:]
        if todo:
            err.seek(0)
            e = "no answer within %d s" % timeout if hung else err.read().decode("utf8", "replace")[-1500:]
            out.append({"id": todo[0]["id"], "panic": "program ended: " + e})
            todo = todo[1:]
        err.close()
    return out
