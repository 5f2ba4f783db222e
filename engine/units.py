"""Which translation units are analysed, with which flags; parallel extraction with a content-keyed cache."""
import hashlib, json, os, subprocess, sys, tempfile, pickle, shutil
from concurrent.futures import ThreadPoolExecutor
from model import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WIT = os.path.join(VERIF, "witness")
COMMON = ["-DNDEBUG", "-DBOOST_ASIO_NO_DEPRECATED", "-DBOOST_CHRONO_HEADER_ONLY", "-pthread", "-w",
          "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-I", REPO + "/include", "-I", WIT + "/stub"]
C98, C11 = ["-std=c++98"], ["-std=c++11"]


def demo_flags(d):
    """extra compile flags a demo program's makefile declares"""
    import re, shlex
    out = []
    try:
        for l in open(os.path.join(REPO, d, "makefile")):
            m = re.match(r"\s*ext_cflag\s*\+?=\s*(.*)$", l)
            if m:
                out += shlex.split(m.group(1))
    except OSError:
        pass
    return [x for x in out if not x.startswith("-I")]


def unit(name):
    """-> (source, flags)"""
    import witness_units as W
    src, std, flags = W.UNITS[name]
    if src.startswith("demo:"):
        d = src[5:]
        return os.path.join(REPO, d), (C11 if std == 11 else C98) + COMMON + demo_flags(os.path.dirname(d)) + flags
    return os.path.join(WIT, src), (C11 if std == 11 else C98) + COMMON + flags


_hash = {}


def tree_hash():
    if "t" in _hash:
        return _hash["t"]
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "file_common"), os.path.join(REPO, "file_server"), os.path.join(REPO, "file_client"), WIT):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith((".h", ".cpp", ".hpp", "makefile")):
                    continue
                p = os.path.join(dp, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
                h.update(b"\0")
    _hash["t"] = h.hexdigest()
    return _hash["t"]


class ExtractError(Exception):
    pass


def extract(name):
    src, flags = unit(name)
    ex = os.path.join(BUILD, "extract")
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    h.update(open(src, "rb").read())
    h.update(repr(flags).encode())
    h.update(open(os.path.join(VERIF, "engine", "extract.cpp"), "rb").read())
    key = h.hexdigest()[:32]
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + ".json")
    if not os.path.exists(out):
        fd, tmp = tempfile.mkstemp(dir=cdir)
        os.close(fd)
        body = src
        extra = []
        if src.startswith(REPO):  # demo program: a wrapper adds the marker that triggers member instantiation
            wd = tempfile.mkdtemp(dir=cdir)
            body = os.path.join(wd, "wrap.cpp")
            with open(body, "w") as f:
                f.write('#include "%s"\nint vp_witness_end;\n' % src)
        cmd = [ex, "-root=" + REPO + "/", "-root=" + WIT + "/", "-o", tmp, body, "--"] + flags
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if body != src:
            shutil.rmtree(os.path.dirname(body))
        if r.returncode != 0 or os.path.getsize(tmp) < 100:
            os.unlink(tmp)
            raise ExtractError("unit %s: %s" % (name, r.stderr[-3000:]))
        os.rename(tmp, out)
        with open(out + ".notes", "w") as f:
            f.write(r.stderr)
        # keep the cache small
        def age(f):
            try:
                return os.path.getmtime(f)
            except OSError:  # tidied by another run
                return 0
        olds = sorted((os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith(".json")), key=age)
        for f in olds[:-120]:
            try:
                os.unlink(f)
            except OSError:
                pass
    try:
        os.utime(out)
        with open(out) as f:
            return Program(json.load(f), name)
    except FileNotFoundError:  # another run tidied the cache in between
        return extract(name)


def prepare():
    subprocess.run([os.path.join(VERIF, "engine", "build.sh")], check=True, stdout=sys.stderr)
    tree_hash()


def load(names):
    prepare()
    names = list(names)
    tree_hash()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(extract, names))
