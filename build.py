"""Builds harnesses from /repo's working tree through an overlay."""
import os, subprocess, shutil, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
           HOME=os.environ.get("HOME") or "/root")

class BuildError(Exception):
    pass

def _run(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def instr_tool(work):
    exe = os.path.join(work, "instr")
    if not os.path.exists(exe):
        rc, out = _run(["go", "build", "-o", exe, "."], os.path.join(VERIF, "tools", "instr"))
        if rc:
            raise BuildError("instrumenter does not build:\n" + out)
    return exe

def patched(work, module, edits):
    """A copy of a module the code under test uses, with `edits` [(file, old, new)] made; None if it is not there."""
    rc, out = _run(["go", "list", "-m", "-f", "{{.Dir}}", module], REPO)
    src = out.strip().split("\n")[-1]
    if rc or not os.path.isdir(src):
        return None
    dst = os.path.join(work, "patched-" + module.replace("/", "_"))
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for f, old, new in edits:
        f = os.path.join(dst, f)
        s = open(f).read() if os.path.exists(f) else ""
        if s.count(old) != 1:
            return None
        os.chmod(os.path.dirname(f), 0o755)
        os.chmod(f, 0o644)
        open(f, "w").write(s.replace(old, new))
    return dst

def proto_dir():
    rc, out = _run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/golang/protobuf"], REPO)
    return os.path.join(out.strip().split("\n")[-1], "proto")

def build(work, name, files, pkg, flags=(), modes=("yield", "virt"), patch=(), nodes=()):
    """Compile the test binary of package `pkg` with harness `files` ({source: destination}) added, and edits of the
    harness's own dependencies ([(module, edits)], left out where they do not fit).
    Returns (path, mode): `mode` is the instrumentation that compiled."""
    exe = instr_tool(work)
    last = ""
    modfile = os.path.join(work, "repo.mod") # a harness may use more of the dependencies than /repo does
    for e in "mod", "sum":
        shutil.copy(os.path.join(REPO, "go." + e), os.path.join(work, "repo." + e))
    for module, edits in patch:
        d = patched(work, module, edits)
        if d:
            with open(modfile, "a") as f:
                f.write("\nreplace %s => %s\n" % (module, d))
    if nodes:
        flags = list(flags) + ["-nodes", ",".join(nodes), "-proto", proto_dir()]
    for mode in modes:
        d = os.path.join(work, "ov-%s-%s" % (name, mode))
        shutil.rmtree(d, ignore_errors=True)
        cmd = [exe, "-repo", REPO, "-rt", os.path.join(VERIF, "rt"), "-out", d,
               "-yield=%s" % ("true" if mode == "yield" else "false"),
               "-virt=%s" % ("false" if mode == "plain" else "true")] + list(flags)
        for s, t in files.items():
            cmd += ["-add", "%s=%s" % (s, t)]
        rc, out = _run(cmd, VERIF)
        if rc:
            raise BuildError("instrumenting failed:\n" + out)
        test = os.path.join(work, "%s-%s.test" % (name, mode))
        rc, out = _run(["go", "test", "-c", "-vet=off", "-modfile", modfile, "-overlay", os.path.join(d, "overlay.json"),
                        "-o", test, pkg], REPO)
        if rc == 0:
            return test, mode
        last = out
    raise BuildError("harness %s does not build:\n%s" % (name, last))
