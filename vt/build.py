"""Compiled kernels of /repo's current tree: use them in place if their recorded source digest
matches the current text, otherwise build a private copy of the tree outside /repo."""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile


def stale(repo):
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    rd = lambda p: open(p, 'rb').read()
    here = os.getcwd()
    try:
        os.chdir(repo)
        shared = ["setup.py"] + sorted(glob.glob("dedalus/**/*.pxd", recursive=True))
        base = hashlib.sha256(b"".join(rd(p) for p in shared if os.path.exists(p)))
        out = []
        for path in sorted(glob.glob("dedalus/**/*.pyx", recursive=True)):
            stem = path[:-4]
            h = base.copy()
            h.update(rd(path))
            stamp = os.path.join("build/vp-stamps", stem.replace("/", "."))
            if not (os.path.exists(stem + suffix) and os.path.exists(stamp) and rd(stamp).decode() == h.hexdigest()):
                out.append(stem)
        return out
    finally:
        os.chdir(here)


def current_tree(repo='/repo'):
    """(path to a tree whose compiled extensions match its sources, scratch directory to remove or None)"""
    bad = stale(repo)
    if not bad:
        return repo, None
    tmp = tempfile.mkdtemp(prefix='vt-build-')
    dst = os.path.join(tmp, 'repo')
    shutil.copytree(repo, dst, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build', 'docs', 'examples'))
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    for stem in bad:
        for old in (stem + suffix, stem + '.c'):
            p = os.path.join(dst, old)
            if os.path.exists(p):
                os.remove(p)
    r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"], cwd=dst,
                       capture_output=True, text=True)
    for stem in bad:
        if not os.path.exists(os.path.join(dst, stem + suffix)):
            print(r.stdout[-2000:], r.stderr[-4000:], file=sys.stderr)
            raise RuntimeError("the current tree does not build")
    return dst, tmp
