"""Builds what a check needs from /repo's current working tree: the LLVM IR of the
crate, the IR of the probe wrappers, and a native shared library for replays."""
import os, subprocess, tempfile, shutil, ctypes, hashlib, time
from .layout_names import NAMES

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def cargo_env():
    """what cargo would set for the crate (source may use env!)"""
    import re
    e = {"CARGO_MANIFEST_DIR": REPO, "CARGO_CRATE_NAME": "aga8"}
    try: t = open(REPO + "/Cargo.toml").read()
    except OSError: return e
    for k in ("name", "version", "description", "license", "repository", "homepage"):
        m = re.search(r'(?m)^%s\s*=\s*"([^"]*)"' % k, t)
        if m: e["CARGO_PKG_" + k.upper()] = m.group(1)
    v = e.get("CARGO_PKG_VERSION", "0.0.0").split("-")[0].split(".")
    for k, x in zip(("MAJOR", "MINOR", "PATCH"), v): e["CARGO_PKG_VERSION_" + k] = x
    return e

class BuildError(Exception): pass

class Build:
    """A scratch directory with the artefacts; removed at exit by the runner."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vpbuild")
        t0 = time.time()
        env = dict(os.environ)
        env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
        env.pop("RUSTFLAGS", None); env["RUSTC_BOOTSTRAP"] = "1"
        for k, v in cargo_env().items(): env.setdefault(k, v)
        flags = ["-C", "panic=abort", "-C", "overflow-checks=on", "-C", "debug-assertions=off", "-C", "codegen-units=1", "--cap-lints", "allow"]
        def rc(args, what):
            p = subprocess.run(["rustc", "--edition", "2021"] + args, env=env, cwd=self.dir, capture_output=True, text=True)
            if p.returncode: raise BuildError(what + " failed:\n" + p.stderr[-3000:])
        feat = ["--cfg", 'feature="extern"', "--check-cfg", 'cfg(feature, values("extern"))']
        # share-generics off: generic library functions already instantiated in the prebuilt std are compiled here too
        rc(["--crate-name", "aga8", "--crate-type", "rlib", *feat, *flags, "-C", "opt-level=0", "-Z", "share-generics=no",
            "--emit=llvm-ir,link,metadata", REPO + "/src/lib.rs", "--out-dir", self.dir], "compiling /repo to LLVM IR")
        rc(["--crate-name", "probe", "--crate-type", "cdylib", *flags, "-C", "opt-level=0", "-Z", "share-generics=no",
            "--extern", "aga8=%s/libaga8.rlib" % self.dir, "--emit=llvm-ir,link", VERIF + "/native/probe.rs",
            "--out-dir", self.dir, "-L", self.dir], "compiling the probe")
        self.ll = os.path.join(self.dir, "aga8.ll"); self.probe_ll = os.path.join(self.dir, "probe.ll")
        self.so = os.path.join(self.dir, "libprobe.so")
        self.seconds = time.time() - t0
        self.layout = None
    def load_layout(self):
        if self.layout is None:
            # in a child process: the library under test is never loaded here
            import json, sys
            code = ("import ctypes,json;l=ctypes.CDLL(%r);l.vp_layout.restype=ctypes.c_size_t;l.vp_layout.argtypes=[ctypes.c_size_t];"
                    "print(json.dumps([l.vp_layout(i) for i in range(%d)]))" % (self.so, len(NAMES)))
            out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
            if out.returncode: raise BuildError("layout: " + out.stderr)
            self.layout = dict(zip(NAMES, json.loads(out.stdout)))
        return self.layout
    def source_hash(self):
        h = hashlib.sha256()
        for root, _, files in sorted(os.walk(REPO + "/src")):
            for f in sorted(files):
                h.update(open(os.path.join(root, f), 'rb').read())
        return h.hexdigest()[:16]
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
