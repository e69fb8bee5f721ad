#!/usr/bin/env python3
"""Offline, content-hash based build of /repo's sources (current working tree) + shims + harnesses.

  build.py all            build everything, link every check
  build.py CHECK [...]    build what these checks need and link them
Objects live in /verif/build. Nothing is written in /repo.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

INC = [f"-I{VERIF}/shim", f"-I{REPO}/include", f"-I{REPO}/deps", f"-I{REPO}/deps/stduuid/include", f"-I{REPO}/deps/ghc",
       f"-I{REPO}/deps/jsoncpp", f"-I{REPO}/deps/cppcodec", f"-I{REPO}/deps/scheduler/include", f"-I{REPO}/deps/bitcoin/include",
       f"-I{REPO}/deps/chachapoly", f"-I{REPO}/deps/rfc6234", f"-I{REPO}/deps/reproc/reproc++/include", f"-I{REPO}/deps/reproc/reproc/include",
       f"-I{VERIF}/shim/reproc", f"-I{REPO}/deps/reproc/reproc/src", f"-I{VERIF}/harness", f"-I{REPO}/src"]
DEFS = ["-DUNICODE", "-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS", "-DCIVETWEB_DLL_IMPORTS", "-DCIVETWEB_CXX_DLL_IMPORTS", "-DNOMINMAX"]
# A check's source says "// VARIANT: asan" when it wants AddressSanitizer; default is "plain". Both use libstdc++ assertions.
VARIANTS = {"plain": ["-D_GLIBCXX_ASSERTIONS"], "asan": ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]}
def cxx_base(v):
    return ["g++", "-std=c++17", "-O1", "-DNDEBUG", "-w", "-Wno-changes-meaning", "-DGRINPP_VERIF=1"] + VARIANTS[v] + DEFS + INC


def pch(v):
    return os.path.join(BUILD, v, "pch", "pch.h")


NO_PCH = {"src/Common/Logger.cpp"}  # bundles another fmt


def cxx_repo(v, rel=""):
    return cxx_base(v) + (["-include", "cstdint"] if rel in NO_PCH else ["-include", pch(v)])

CC_DEPS = ["gcc", "-O2", "-w", "-DHAVE_SCRYPT_CONFIG_H"] + DEFS + INC
CXX_DEPS = ["g++", "-std=c++17", "-O2", "-w", "-DHAVE_SCRYPT_CONFIG_H", "-include", "cstdint"] + DEFS + INC
LIBS = ["-lfmt", "-lrocksdb", "-lcivetweb-cpp", "-lcivetweb", "-lroaring", "-lminizip", "-lsodium", "-lz", "-luuid", "-lsqlite3", "-lcrypto", "-lssl", "-lpthread", "-ldl"]

# order matters for static initialisation: configuration constants and the crypto context come first
FIRST = ["src/Core/Config.cpp", "src/Common/Secure.cpp", "src/Crypto/CSPRNG.cpp", "src/Crypto/Crypto.cpp"]
SKIP = re.compile(r"(_Win\.cpp$|/Server/Node/GrinNode\.cpp$)")


def sources(v):
    out = {}
    for f in sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True)):
        rel = os.path.relpath(f, REPO)
        if SKIP.search("/" + rel) or rel in EXCLUDE:
            continue
        extra = []
        m = {"src/BlockChain": "MW_BLOCK_CHAIN", "src/Database": "MW_DATABASE", "src/P2P": "MW_P2P", "src/PoW": "MW_POW", "src/TxPool": "MW_TX_POOL", "src/Crypto": "MW_CRYPTO", "src/PMMR": "MW_PMMR"}
        for pre, macro in m.items():
            if rel.startswith(pre + "/"):
                extra.append("-D" + macro)
        out[rel] = cxx_repo(v, rel) + extra
    return out


EXCLUDE = {"src/main.cpp", "src/Net/Tor/TorProcess.cpp"}  # TorProcess: harness/torstub.cpp


def dep_sources():
    out = {}
    pats = ["deps/rfc6234/*.c", "deps/bitcoin/src/*.c", "deps/scrypt/*.c", "deps/sha3/*.c", "deps/chachapoly/*.c", "deps/reproc/reproc/src/*.c", "deps/reproc/reproc/src/posix/*.c"]
    for p in pats:
        for f in sorted(glob.glob(f"{REPO}/{p}")):
            b = os.path.basename(f)
            if "windows" in b or b.endswith(".win.c") or b in ("shatest.c", "test.c", "main.c") or "test" in b:
                continue
            out[os.path.relpath(f, REPO)] = CC_DEPS
    for p in ["deps/jsoncpp/**/*.cpp", "deps/bitcoin/src/**/*.cpp", "deps/scrypt/*.cpp", "deps/reproc/reproc++/src/**/*.cpp", "deps/chachapoly/*.cpp", "deps/sha3/*.cpp"]:
        for f in sorted(glob.glob(f"{REPO}/{p}", recursive=True)):
            out[os.path.relpath(f, REPO)] = CXX_DEPS
    return out


def sha(path, cache):
    if path in cache:
        return cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.blake2b(f.read(), digest_size=16).hexdigest()
    except OSError:
        h = "missing"
    cache[path] = h
    return h


class Unit:
    def __init__(self, name, src, cmd, v):
        self.name, self.src, self.cmd, self.v = name, src, cmd, v
        self.obj = os.path.join(BUILD, v, "obj", name + ".o")
        self.stamp = self.obj + ".stamp"

    def fresh(self, cache):
        if not os.path.exists(self.obj) or not os.path.exists(self.stamp):
            return False
        try:
            st = json.load(open(self.stamp))
        except Exception:
            return False
        if st["cmd"] != self.cmd:
            return False
        return all(sha(p, cache) == h for p, h in st["deps"].items())

    def build(self):
        os.makedirs(os.path.dirname(self.obj), exist_ok=True)
        dep = self.obj + ".d"
        r = subprocess.run(self.cmd + ["-MMD", "-MF", dep, "-c", self.src, "-o", self.obj], capture_output=True, text=True)
        if r.returncode != 0:
            try:
                os.unlink(self.stamp)
            except OSError:
                pass
            return r.stderr
        txt = open(dep).read().replace("\\\n", " ")
        deps = [d for d in txt.split(":", 1)[1].split() if (d.startswith(REPO) or d.startswith(VERIF)) and not d.startswith(BUILD)]
        cache = {}
        if pch(self.v) in self.cmd:
            deps += list(json.load(open(pch(self.v) + ".stamp"))["deps"])
        json.dump({"cmd": self.cmd, "deps": {d: sha(d, cache) for d in deps}}, open(self.stamp, "w"))
        return None


def ensure_pch(v):
    """The precompiled header holds third-party headers only; rebuilt when its text, flags or those in /repo/deps change."""
    PCH = pch(v)
    os.makedirs(os.path.dirname(PCH), exist_ok=True)
    gch, stamp = PCH + ".gch", PCH + ".stamp"
    cmd = cxx_base(v) + ["-x", "c++-header", os.path.join(VERIF, "shim", "pch.h"), "-o", gch]
    cache = {}
    try:
        st = json.load(open(stamp))
        if os.path.exists(gch) and st["cmd"] == cmd and all(sha(p, cache) == h for p, h in st["deps"].items()):
            return
    except Exception:
        pass
    open(PCH, "w").write('#include "%s/shim/pch.h"\n' % VERIF)
    dep = PCH + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep], capture_output=True, text=True)
    if r.returncode != 0:
        raise SystemExit("pch failed: " + r.stderr[:2000])
    txt = open(dep).read().replace("\\\n", " ")
    deps = [d for d in txt.split(":", 1)[1].split() if d.startswith(REPO) or d.startswith(VERIF)]
    cache = {}
    json.dump({"cmd": cmd, "deps": {d: sha(d, cache) for d in deps}, "id": time.time()}, open(stamp, "w"))


def units(v):
    """All units of a variant. Third-party C objects and shims are the same in both and live under 'common'."""
    ensure_pch(v)
    u = {}
    for rel, cmd in sources(v).items():
        u["repo/" + rel] = Unit("repo/" + rel, os.path.join(REPO, rel), cmd, v)
    for rel, cmd in dep_sources().items():
        u["dep/" + rel] = Unit("dep/" + rel, os.path.join(REPO, rel), cmd, "common")
    for f in sorted(glob.glob(f"{VERIF}/shim/*.cpp")):
        n = "shim/" + os.path.basename(f)
        u[n] = Unit(n, f, CXX_DEPS, "common")
    for f in sorted(glob.glob(f"{VERIF}/harness/*.cpp")):
        n = "harness/" + os.path.basename(f)
        u[n] = Unit(n, f, cxx_repo(v), v)
    for f in sorted(glob.glob(f"{VERIF}/checks/*.cpp")):
        if variant(f) == v:
            n = "check/" + os.path.basename(f)
            u[n] = Unit(n, f, cxx_repo(v), v)
    return u


def variant(f):
    m = re.search(r"^// VARIANT: (\w+)", open(f).read(), re.M)
    return m.group(1) if m else "plain"


def compile_units(us, verbose=False):
    """Returns {unit name: error text}."""
    cache = {}
    todo = [x for x in us if not x.fresh(cache)]
    errs = {}
    # biggest first
    todo.sort(key=lambda x: (0 if x.name.startswith("check/") else 1, -os.path.getsize(x.src)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(x.build): x for x in todo}
        for f in cf.as_completed(futs):
            e = f.result()
            if e is not None:
                errs[futs[f].name] = e
    return errs, len(todo)


def check_file(cid):
    m = sorted(glob.glob(f"{VERIF}/checks/{cid}_*.cpp"))
    if len(m) != 1:
        raise SystemExit(f"no unique check source for {cid}: {m}")
    return m[0]


def link(cid, us, bad):
    """Link check cid from all successfully compiled objects; records the objects the linker pulled in."""
    src = check_file(cid)
    cu = "check/" + os.path.basename(src)
    exe = os.path.join(BUILD, "bin", cid)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    avail = {n: x for n, x in us.items() if not n.startswith("check/") and n not in bad}
    firsts = [avail["repo/" + f] for f in FIRST if "repo/" + f in avail]
    rest = [x for n, x in sorted(avail.items()) if x not in firsts]
    rsp = exe + ".rsp"
    lazy = [x for x in firsts if x.name != "repo/" + FIRST[0]]
    with open(rsp, "w") as f:
        f.write("\n".join([firsts[0].obj] + ["-Wl,--start-lib"] + [x.obj for x in lazy] + ["-Wl,--end-lib", us[cu].obj, us["harness/pbt.cpp"].obj, "-Wl,--start-lib"] + [x.obj for x in rest] + ["-Wl,--end-lib"]))
    san = [x for x in VARIANTS[variant(src)] if x.startswith("-fsanitize")]
    r = subprocess.run(["g++", "-fuse-ld=lld", "-Wl,--gc-sections", "-Wl,--wrap=open", "-Wl,--wrap=read", "-Wl,--wrap=close", "-Wl,-t", "-o", exe + ".tmp", "@" + rsp] + san + LIBS, capture_output=True, text=True)
    if r.returncode != 0:
        return r.stderr
    byobj = {x.obj: n for n, x in us.items()}
    used = {byobj[l.strip()] for l in r.stdout.splitlines() if l.strip() in byobj}
    os.replace(exe + ".tmp", exe)
    json.dump(sorted(used | {cu}), open(exe + ".need", "w"))
    return None


def key(cid, us):
    """Identifies the objects the linked binary was made of, by the content hashes of their sources."""
    h = hashlib.sha256()
    for n in json.load(open(os.path.join(BUILD, "bin", cid) + ".need")):
        try:
            h.update(open(us[n].stamp, "rb").read())
        except (OSError, KeyError):
            h.update(b"missing " + n.encode())
    return h.hexdigest()


def build_check(cid):
    """Build just what cid needs. Returns (exe, None) or (None, error)."""
    src = check_file(cid)
    us = units(variant(src))
    exe = os.path.join(BUILD, "bin", cid)
    cu = "check/" + os.path.basename(src)
    if os.path.exists(exe + ".need") and os.path.exists(exe):
        need = [n for n in json.load(open(exe + ".need")) if n in us]
        errs, n = compile_units([us[x] for x in need])
        if not errs and cu in need:
            if os.path.exists(exe + ".key") and open(exe + ".key").read() == key(cid, us):
                return exe, None
            if link(cid, {x: us[x] for x in need}, {}) is None:
                open(exe + ".key", "w").write(key(cid, us))
                return exe, None
    if os.path.exists(exe + ".key"):
        os.unlink(exe + ".key")
    errs, n = compile_units([x for nme, x in us.items() if not nme.startswith("check/") or nme == cu])
    if cu in errs:
        return None, errs[cu]
    e = link(cid, us, errs)
    if e is not None:
        return None, "\n".join(v for v in errs.values())[:4000] + "\n" + e[:6000]
    open(exe + ".key", "w").write(key(cid, us))
    return exe, None


def main():
    t = time.time()
    rc = 0
    if sys.argv[1:] == ["all"]:
        files = sorted(glob.glob(f"{VERIF}/checks/C*.cpp"))
        if not files:  # bring-up
            errs, n = compile_units(list(units("plain").values()))
            print(n, time.time() - t)
            for k, e in errs.items():
                print("FAILED", k, e[:2000])
            return 0
        needed_v = sorted({variant(f) for f in files}, reverse=True)
        for v in needed_v:
            us = units(v)
            if v != "plain":
                # only what the checks of this variant need: found by linking the plain objects first is not possible, so build all
                pass
            errs, n = compile_units(list(us.values()))
            print(f"[{v}] compiled {n} units, {len(errs)} failed, {time.time()-t:.1f}s", flush=True)
            for k, e in errs.items():
                print("FAILED", k, "\n", e[:3000])
                rc = 1
            cids = [os.path.basename(f).split("_")[0] for f in files if variant(f) == v]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for c, e in zip(cids, ex.map(lambda c: link(c, us, errs), cids)):
                    if e:
                        rc = 1
                        print("LINK FAILED", c, e[:3000])
                    else:
                        open(os.path.join(BUILD, "bin", c + ".key"), "w").write(key(c, us))
        print(f"done in {time.time()-t:.1f}s")
        return rc
    for c in sys.argv[1:]:
        exe, e = build_check(c)
        print(c, exe or "FAILED", f"{time.time()-t:.1f}s")
        if e:
            rc = 1
            print(e[:8000])
    return rc


if __name__ == "__main__":
    sys.exit(main())
