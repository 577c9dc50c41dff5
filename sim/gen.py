#!/usr/bin/env python3
"""Evaluates the repository's own BUILD.bazel/.bzl files (Starlark is a subset
of Python) and writes a build.ninja for the simulation binaries.

Derived from the build generator of this sandbox.  Every C++ library is emitted
in two flavours: "host" (plain, used to build the project's code generators)
and "sim" (OpenMP on, memory accesses instrumented), and the harness binaries
of HARNESS.json are linked against the sim flavour of the targets they name.

usage: gen.py REPO OUT HARNESS.json      writes OUT/build.ninja

Nothing about the project's targets is hard-coded: sources, deps, flags and
code generators come from the BUILD files.  Only external repositories (@...)
are mapped, in EXTERNAL below, to what apt provides.  One that is not there
contributes nothing; the objects and binaries that cannot be built without it
are named, with the reason, in skip.json next to this file.
"""
import glob as _glob
import hashlib
import json
import os
import re
import shlex
import sys

REPO, OUT, HARNESS = sys.argv[1:4]
SIMDIR = os.path.dirname(os.path.abspath(__file__))
HERE = "/opt/vp/tachyon_build"
BIN = "bazel-out/k8-opt/bin"          # what the project's generators expect
MAIN = "@kroma_network_tachyon"
CIRCOM = "vendors/circom"
GTEST = HERE + "/googletest"
INC = HERE + "/include"

CC = os.environ.get("CC", "gcc")
CXX = os.environ.get("CXX", "g++")

# ---- configuration (select() conditions that hold) --------------------------
TRUE = {
    "@platforms//os:linux", "@platforms//cpu:x86_64",
    MAIN + "//:linux_x86_64", MAIN + "//:optimized",
    MAIN + "//:tachyon_has_exception",        # .bazelrc: --//:has_exception
}
FLAG_OVERRIDES = {
    "//:has_exception": True,
    "//:has_asm_prime_field": False,          # needs iden3/ffiasm
}

EXTERNAL = {
    "@com_google_absl": [],
    "@com_google_googletest": [],
    "@com_github_google_glog": [],
    "@local_config_gmp": ["-lgmpxx", "-lgmp"],
    "@com_github_tencent_rapidjson": [],
    "@pdqsort": [],
    "@nlohmann_json": [],
    "@local_config_omp": [],
}
ABSL_LIBS = sorted(
    f for f in _glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))


class MissingDep(Exception):
    pass


# ---- starlark environment ----------------------------------------------------
class Attr:
    def __getattr__(self, kind):
        def f(default=None, **kw):
            empty = {"string": "", "string_list": [], "label_list": [],
                     "bool": False, "int": 0}.get(kind)
            return {"kind": kind,
                    "default": default if default is not None else empty,
                    "executable": kw.get("executable", False)}
        return f


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def to_list(self):
        return self._l


def depset(direct=(), transitive=(), **kw):
    items = list(direct)
    for t in transitive:
        items += t.to_list()
    return Struct(_l=items)


class Provider:
    def __init__(self, name):
        self.name = name

    def __call__(self, **kw):
        s = Struct(**kw)
        s._provider = self
        return s


BuildSettingInfo = Provider("BuildSettingInfo")
DefaultInfo = Provider("DefaultInfo")
CcInfo = Provider("CcInfo")


def norm(label, pkg):
    """-> (repo, pkg, name); repo '' is the main repository"""
    repo = ""
    if label.startswith("@"):
        repo, _, rest = label.partition("//")
        if not _:
            return repo, "", repo[1:]
        label = "//" + rest
        if repo == MAIN:
            repo = ""
    elif label.startswith("//") and (pkg + "/").startswith(CIRCOM + "/"):
        label = "//" + CIRCOM + "/" + label[2:]   # a workspace of its own
    if label.startswith("//"):
        p, _, n = label[2:].partition(":")
        if not _:
            n = p.rsplit("/", 1)[-1]
        return repo, p, n
    return repo, pkg, label.lstrip(":")


def cond_true(c, pkg):
    if c.startswith(":") or c.startswith("//"):
        if c == "//conditions:default":
            return False
        _, p, n = norm(c, pkg)
        c = "%s//%s:%s" % (MAIN, p, n)
    return c in TRUE


targets = {}      # (pkg, name) -> dict
outputs = {}      # (pkg, file) -> rule target generating it
loading = [None]  # current package
bzl_cache = {}
used_files = set()


def add(kind, name, **kw):
    pkg = loading[0]
    t = dict(kw, kind=kind, name=name, pkg=pkg)
    if (pkg, name) in targets:
        raise Exception("duplicate target //%s:%s" % (pkg, name))
    targets[(pkg, name)] = t
    return t


def mk(kind):
    def f(name, **kw):
        add(kind, name, **kw)
    return f


def select(d, **kw):
    for k, v in d.items():
        if cond_true(k, loading[0]):
            return v
    if "//conditions:default" in d:
        return d["//conditions:default"]
    raise Exception("no matching select branch: %r" % list(d))


def rule(implementation, attrs=None, **kw):
    attrs = attrs or {}

    def f(name, **a):
        t = add("rule", name, impl=implementation, attrs=attrs, args=a)
        for k, spec in attrs.items():
            if spec["kind"] == "output" and k in a:
                outputs[(t["pkg"], a[k])] = t
    return f


def do_glob(include, exclude=(), **kw):
    base = os.path.join(REPO, loading[0])
    r = set()
    for pat in include:
        r |= {os.path.relpath(p, base)
              for p in _glob.glob(os.path.join(base, pat), recursive=True)
              if os.path.isfile(p)}
    for pat in exclude:
        r -= {os.path.relpath(p, base)
              for p in _glob.glob(os.path.join(base, pat), recursive=True)}
    return sorted(r)


class Anything:
    """result of loading something from an external repository"""
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **kw):
        if isinstance(kw.get("name"), str):
            add("external", **dict(kw))
        return []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything(k)


def bool_flag(name, build_setting_default, **kw):
    v = FLAG_OVERRIDES.get("//%s:%s" % (loading[0], name), build_setting_default)
    add("flag", name, value=v)


EXT_SYMBOLS = {
    "if_cuda": lambda a, b=[]: b,
    "if_cuda_is_configured": lambda x: [],
    "if_rocm_is_configured": lambda x: [],
    "icicle_defines": lambda *a, **k: [],
    "requirement": lambda x: "@pip_deps//:" + x,
    "all_crate_deps": lambda **k: ["@crate_index//:crates"],
    "bool_flag": bool_flag,
    "string_flag": bool_flag,
    "BuildSettingInfo": BuildSettingInfo,
    "cc_library": mk("cc_library"),
    "cc_binary": mk("cc_binary"),
    "cc_test": mk("cc_test"),
    "objc_library": mk("unsupported"),
    "cuda_library": mk("cc_library"),
    "BN254": "bn254", "BLS12_381": "bls12_381", "BABY_BEAR": "baby_bear",
    "PROJECT_ROOT": REPO,
}

native = Struct(
    cc_library=mk("cc_library"), cc_shared_library=mk("unsupported"),
    genrule=mk("genrule"),
    existing_rule=lambda n: targets.get((loading[0], n)))


def fail(*a):
    raise Exception("fail: " + " ".join(map(str, a)))


def env(pkg):
    g = {
        "select": select, "rule": rule, "attr": Attr(), "depset": depset,
        "provider": lambda *a, **k: Provider("p"), "struct": Struct,
        "Label": lambda s: s, "glob": do_glob, "native": native,
        "DefaultInfo": DefaultInfo, "CcInfo": CcInfo, "fail": fail,
        "package": lambda **k: None, "exports_files": lambda *a, **k: None,
        "package_name": lambda: loading[0],
        "licenses": lambda *a: None,
        "filegroup": mk("filegroup"), "genrule": mk("genrule"),
        "alias": mk("alias"), "config_setting": mk("config_setting"),
        "cc_library": mk("cc_library"), "cc_binary": mk("cc_binary"),
        "cc_test": mk("cc_test"), "py_library": mk("unsupported"),
        "py_binary": mk("unsupported"), "sh_binary": mk("unsupported"),
        "test_suite": mk("unsupported"),
        "True": True, "False": False, "None": None,
    }

    def load(label, *names, **renames):
        syms = {n: n for n in names}
        syms.update(renames)
        repo, p, n = norm(label, pkg)
        if repo:
            for k, v in syms.items():
                g[k] = EXT_SYMBOLS[v] if v in EXT_SYMBOLS else Anything(v)
            return
        m = load_bzl(p, n)
        for k, v in syms.items():
            g[k] = m[v]
    g["load"] = load
    return g


def run(path, g):
    used_files.add(path)
    with open(path) as f:
        exec(compile(f.read(), path, "exec"), g)


def load_bzl(p, n):
    path = os.path.join(REPO, p, n)
    if path not in bzl_cache:
        g = env(p)
        run(path, g)
        bzl_cache[path] = g
    return bzl_cache[path]


ignored = ("tachyon/node", "tachyon/rs", "tachyon/py")
packages = []
for top in ("", "tachyon") + tuple(CIRCOM + "/circomlib/" + d for d in (
        "base", "circuit", "json", "r1cs", "wtns", "zkey")):
    for d, dirs, files in os.walk(os.path.join(REPO, top)):
        rel = os.path.relpath(d, REPO)
        rel = "" if rel == "." else rel
        if rel in ignored:
            dirs[:] = []
            continue
        dirs.sort()
        if top == "":
            dirs[:] = []
        if "BUILD.bazel" in files:
            packages.append(rel)
for pkg in packages:
    loading[0] = pkg
    run(os.path.join(REPO, pkg, "BUILD.bazel"), env(pkg))

# ---- analysis ---------------------------------------------------------------
rules_out = []         # ninja text


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def uniq(xs):
    return list(dict.fromkeys(xs))


def write(path, s):
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(s)


def ninja(rule_, outs, ins, implicit=(), order=(), **vars_):
    s = "build %s: %s %s" % (" ".join(map(esc, outs)), rule_,
                             " ".join(map(esc, ins)))
    if implicit:
        s += " | " + " ".join(map(esc, uniq(implicit)))
    if order:
        s += " || " + " ".join(map(esc, uniq(order)))
    s += "\n"
    for k, v in vars_.items():
        if k == "cmd" and "\n" in v:
            # ninja has no multi-line values, and these newlines matter
            path = "cmds/%s.sh" % hashlib.sha256(v.encode()).hexdigest()[:20]
            os.makedirs(OUT + "/cmds", exist_ok=True)
            write(OUT + "/" + path, v + "\n")
            v = "bash " + path
        if "\n" in v:
            raise Exception("newline in %s of %s" % (k, outs))
        s += "  %s = %s\n" % (k, v.replace("$", "$$"))
    return s


class File:
    def __init__(self, path):
        self.path = path
        self.short_path = path[len(BIN) + 1:] if path.startswith(BIN) else path
        self.basename = os.path.basename(path)
        self.dirname = os.path.dirname(path)


analyzed = {}


def resolve(label, pkg):
    """label -> analysis result"""
    repo, p, n = norm(label, pkg)
    if repo:
        if repo in EXTERNAL:
            return dict(files=[], hdrs=[], objs=[], defines=[], includes=[],
                        linkopts=EXTERNAL[repo], name=label, text="")
        return dict(files=[], hdrs=[], objs=[], defines=[], includes=[],
                    linkopts=[], name=label, text="")
    if (p, n) in targets:
        return analyze((p, n))
    if (p, n) in outputs:
        r = analyze((p, outputs[(p, n)]["name"]))
        return dict(r, files=[f for f in r["files"]
                              if f == "%s/%s/%s" % (BIN, p, n)])
    path = os.path.join(p, n)
    if os.path.isfile(os.path.join(REPO, path)):
        return dict(files=[path], hdrs=[], objs=[], defines=[], includes=[],
                    linkopts=[], text="")
    raise MissingDep("//%s:%s (no such file or target)" % (p, n))


def analyze(key):
    r = analyzed.get(key)
    if r is None:
        analyzed[key] = MissingDep("cycle")
        try:
            if "//%s:%s" % key in SKIP:
                raise MissingDep("skip.json: " + SKIP["//%s:%s" % key])
            r = do_analyze(targets[key])
            r["key"] = key
        except MissingDep as e:
            r = e
        analyzed[key] = r
    if isinstance(r, MissingDep):
        raise MissingDep(str(r))
    return r


class AttrView:
    pass


def expand(cmd, pkg, labels, outs):
    table = {}
    for l in labels:
        r = resolve(l, pkg)
        table[norm(l, pkg)] = r.get("exe") or " ".join(r["files"])

    def loc(m):
        k = norm(m.group(2).strip(), pkg)
        if k in table:
            return table[k]
        for o in outs:
            if o.endswith("/" + k[2]):
                return o
        raise Exception("cannot expand " + m.group(0))
    return re.sub(r"\$\((r?(?:exec)?locations?) ([^)]*)\)", loc, cmd)


def analyze_rule(t):
    pkg, args = t["pkg"], t["args"]
    a, files, execs, outs = AttrView(), AttrView(), AttrView(), AttrView()
    res = []                      # results of label attributes
    byname = {}
    produced = []
    actions = []
    for k, spec in t["attrs"].items():
        v = args.get(k, spec["default"])
        kind = spec["kind"]
        if kind == "output":
            f = File("%s/%s/%s" % (BIN, pkg, v))
            setattr(outs, k, f)
            produced.append(f)
        elif kind == "label" and v is not None:
            owner = pkg
            r = resolve(v, owner)
            res.append(r)
            byname[k] = r
            fl = [File(f) for f in ([r["exe"]] if r.get("exe") else r["files"])]
            setattr(files, k, fl)
            if spec["executable"]:
                setattr(execs, k, fl[0])
            r2 = dict(r.get("providers", {}))
            r2["label"] = v
            setattr(a, k, ProviderMap(r2))
            continue
        elif kind == "label_list":
            rs = [resolve(x, pkg) for x in v]
            res += rs
            setattr(files, k, [File(f) for r in rs for f in r["files"]])
            v = [ProviderMap(dict(r.get("providers", {}))) for r in rs]
        setattr(a, k, v)
    a.name = t["name"]

    def declare_file(n):
        f = File("%s/%s/%s" % (BIN, pkg, n))
        produced.append(f)
        return f

    def act_run(outputs, executable, arguments, inputs=(), tools=(), **kw):
        cmd = " ".join(shlex.quote(x)
                       for x in [executable.path] + list(arguments))
        actions.append((outputs, list(inputs) + list(tools) + [executable], cmd))

    def act_shell(outputs, command, inputs=(), tools=(), **kw):
        actions.append((outputs, list(inputs) + list(tools), command))

    def expand_location(s, tgts=()):
        def loc(m):
            want = norm(m.group(1), pkg)
            for k, r in byname.items():
                l = args.get(k, t["attrs"][k]["default"])
                if norm(l, pkg) == want:
                    return r["files"][0]
            # a label relative to where the macro is used
            raise Exception("expand_location " + s)
        return re.sub(r"\$\(location ([^)]*)\)", loc, s)

    ctx = Struct(attr=a, files=files, executable=execs, outputs=outs,
                 expand_location=expand_location,
                 genfiles_dir=File(BIN),
                 build_file_path="%s/BUILD.bazel" % pkg,
                 actions=Struct(run=act_run, run_shell=act_shell,
                                declare_file=declare_file))
    # ctx.genfiles_dir.path is used as a prefix
    ret = t["impl"](ctx)
    provs = {}
    for p in (ret if isinstance(ret, list) else [ret] if ret else []):
        provs[p._provider] = p
    text = ""
    for outputs_, ins, cmd in actions:
        stamp = any("lastchange" in i.path for i in ins) and not produced[0].path.endswith(".h")
        text += ninja("gen", [o.path for o in outputs_],
                      uniq([i.path for i in ins]),
                      implicit=["gitstamp"] if stamp else [], cmd=cmd)
    fl = provs[DefaultInfo].files.to_list() if DefaultInfo in provs else produced
    return dict(files=[f.path for f in fl], hdrs=[], objs=[], defines=[],
                includes=[], linkopts=[], providers=provs, text=text,
                deps=res)


class ProviderMap:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d


RUNTIME = ["sim/_rt/%s.o" % os.path.splitext(os.path.basename(f))[0]
           for f in sorted(_glob.glob(SIMDIR + "/rt/*.cc"))]


def simobj(o):
    return "sim/" + o[len(BIN) + 1:] if o.startswith(BIN) else o


def flat(x):
    return x if isinstance(x, list) else [x]


def do_analyze(t):
    kind, pkg, name = t["kind"], t["pkg"], t["name"]
    base = dict(files=[], hdrs=[], objs=[], defines=[], includes=[],
                linkopts=[], text="", deps=[])
    if kind == "flag":
        return dict(base, providers={BuildSettingInfo: Struct(value=t["value"])})
    if kind == "filegroup":
        rs = [resolve(s, pkg) for s in t.get("srcs", [])]
        return dict(base, files=[f for r in rs for f in r["files"]], deps=rs)
    if kind == "alias":
        return resolve(t["actual"], pkg)
    if kind == "rule":
        return analyze_rule(t)
    if kind == "genrule":
        srcs = t.get("srcs", [])
        rs = [resolve(s, pkg) for s in srcs + t.get("tools", [])]
        outs = ["%s/%s/%s" % (BIN, pkg, o) for o in t["outs"]]
        cmd = expand(t["cmd"], pkg, srcs + t.get("tools", []), outs)
        ins = [f for r in rs for f in (r["files"] or [r.get("exe")])]
        cmd = (cmd.replace("$(OUTS)", " ".join(outs))
               .replace("$(@D)", BIN + "/" + pkg).replace("$@", outs[0])
               .replace("$<", ins[0] if ins else "").replace("$$", "$"))
        return dict(base, files=outs, text=ninja("gen", outs, ins, cmd=cmd),
                    deps=rs)
    if kind not in ("cc_library", "cc_binary", "cc_test", "harness"):
        raise MissingDep("rule kind %s is not supported" % (
            "of an external repository" if kind == "external" else kind))

    deps = [resolve(d, pkg) for d in t.get("deps", [])]
    gens = []
    srcs, hdrs = [], []
    sim_kind = kind == "harness"
    if sim_kind:
        srcs += t["hsrcs"]
    for attr_, lst in (("srcs", srcs), ("hdrs", hdrs)):
        for s in t.get(attr_, []):
            r = resolve(s, pkg)
            lst += r["files"]
            if r.get("key"):
                gens.append(r)
    data = [resolve(s, pkg) for s in t.get("data", [])]
    key = (pkg, name)
    # transitive closure
    alldeps = {}

    def walk(r):
        k = r.get("key")
        if k is None or k in alldeps:
            return
        alldeps[k] = r
        for d in r.get("cc_deps", []):
            walk(d)
    extlink = []
    for r in deps:
        walk(r)
        if r.get("key") is None:
            extlink += r["linkopts"]
    tr = list(alldeps.values())
    sim = kind == "harness"
    defines = list(t.get("defines", []))
    includes = [os.path.join(pkg, i) for i in t.get("includes", [])]
    linkopts = list(t.get("linkopts", [])) + extlink
    genhdrs = [f for f in srcs + hdrs if f.startswith(BIN)]
    for r in tr:
        defines += r["own_defines"] if "own_defines" in r else []
        includes += r["own_includes"] if "own_includes" in r else []
        linkopts += r["own_linkopts"] if "own_linkopts" in r else []
        genhdrs += [f for f in r["hdrs"] if f.startswith(BIN)]
    text = ""
    objs = []
    copts = ["-D" + d for d in uniq(defines)] + \
            ["-D" + d for d in t.get("local_defines", [])] + \
            [x for i in uniq(includes) for x in ("-I", i, "-I", BIN + "/" + i)] + \
            [c for c in t.get("copts", []) if c != "-Werror"]
    objdir = "%s/%s/_objs/%s" % (BIN, pkg, name)
    for s in srcs:
        stem, ext = os.path.splitext(s)
        if ext in (".h", ".inc", ".hpp"):
            continue
        if ext in (".o", ".a"):
            objs.append(s)
            continue
        if ext not in (".cc", ".cpp", ".c"):
            raise MissingDep("source %s" % s)
        rel = s[len(BIN) + 1:] if s.startswith(BIN) else s
        rel = os.path.relpath(rel, pkg)
        if sim:
            o = "sim/_harness/%s/%s.o" % (name, os.path.basename(stem))
            text += ninja("simcxx", [o], [s], order=genhdrs,
                          copts=" ".join(map(shlex.quote, copts)))
            objs.append(o)
            continue
        o = "%s/%s.o" % (objdir, os.path.splitext(rel)[0])
        objs.append(o)
        for r_, o_ in (("cc" if ext == ".c" else "cxx", o),
                       ("simcc" if ext == ".c" else "simcxx", simobj(o))):
            text += ninja(r_, [o_], [s], order=genhdrs,
                          copts=" ".join(map(shlex.quote, copts)))
    if kind == "cc_test" and srcs and not objs:
        raise MissingDep("all its sources are in skip.json")
    allobjs = uniq(objs + [o for r in tr for o in r["objs"]])
    res = dict(base, hdrs=[f for f in hdrs + srcs
                           if f.endswith((".h", ".hpp", ".inc"))],
               objs=objs, text=text,
               own_defines=list(t.get("defines", [])),
               own_includes=[os.path.join(pkg, i) for i in t.get("includes", [])],
               own_linkopts=list(t.get("linkopts", [])) + extlink,
               deps=deps + gens + data, cc_deps=deps, nobj=len(allobjs))
    if sim:
        exe = "sim/%s" % name
        allobjs = uniq(objs + [simobj(o) for r in tr for o in r["objs"]] +
                       RUNTIME)
        res["text"] += ninja("simlink", [exe], allobjs,
                             linkopts=" ".join(uniq(linkopts)))
        res["exe"] = exe
        res["files"] = [exe]
    elif kind != "cc_library":
        exe = "%s/%s/%s" % (BIN, pkg, name)
        extra = ["gtest/libgtest_main.a"] if kind == "cc_test" else []
        if any("googletest" in d and "gtest_prod" not in d
               for d in t.get("deps", [])) or kind == "cc_test" or \
                any(r.get("uses_gtest") for r in tr):
            extra.append("gtest/libgtest.a")
        res["text"] += ninja("link", [exe], allobjs, implicit=extra,
                             extra=" ".join(extra),
                             linkopts=" ".join(uniq(linkopts)))
        res["exe"] = exe
        res["files"] = [exe]
    res["uses_gtest"] = any("googletest" in d and "gtest_prod" not in d
                            for d in t.get("deps", []))
    return res


SKIP = {}
for h in json.load(open(HARNESS)):
    loading[0] = ""
    add("harness", h["name"], srcs=[], hsrcs=h["srcs"], deps=h["deps"],
        copts=h.get("copts", []))
ok = []
for key, t in list(targets.items()):
    if t["kind"] == "harness":
        analyze(key)
        ok.append(key)

needed = set()


def need(r):
    k = r.get("key")
    if k is None or k in needed:
        return
    needed.add(k)
    for d in r.get("deps", []):
        need(d)


finals = []
for key in ok:
    need(analyzed[key])
    finals += analyzed[key]["files"]

common = ("-DNDEBUG -fPIC -pthread -I. -I%s -I vendors/circom -I %s/shim -isystem %s "
          "-isystem %s/googletest/include -isystem %s/googlemock/include "
          % (BIN, SIMDIR, INC, GTEST, GTEST))
host = "-O1 " + common
# The simulation flavour: parallel code paths on, every memory access a hook.
sim_ = ("-O2 -g1 -fno-omit-frame-pointer -fno-pie -I %s/shadow " % SIMDIR + common.replace("-fPIC", "") +
        " -I %s -DTACHYON_HAS_OPENMP -DVERIF_SIM -fopenmp -fsanitize=thread "
        "--param tsan-instrument-func-entry-exit=0" % SIMDIR)
head = """# generated by %s
ninja_required_version = 1.8
rule cxx
  command = %s -std=c++17 $copts %s -w -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule cc
  command = %s $copts %s -w -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CC $out
rule simcxx
  command = %s -std=c++17 $copts %s -w -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = SIMCXX $out
rule simcc
  command = %s $copts %s -w -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = SIMCC $out
rule rtcxx
  command = %s -std=c++17 -O2 -g1 -fno-pie -pthread -fno-builtin -I %s -Wall -Wno-unused-function -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = RTCXX $out
rule link
  command = %s -pthread -o $out @$out.rsp $extra -lglog -Wl,--start-group %s -Wl,--end-group $linkopts -lm -lrt -ldl
  rspfile = $out.rsp
  rspfile_content = $in
  description = LINK $out
rule simlink
  command = %s -pthread -no-pie -rdynamic -Wl,--wrap=dlsym -Wl,--wrap=_ZN4absl7debian33NowEv -Wl,--wrap=_ZN4absl7debian319GetCurrentTimeNanosEv -Wl,--wrap=_ZN4absl7debian35Mutex4LockEv -Wl,--wrap=_ZN4absl7debian35Mutex6UnlockEv -Wl,--wrap=_ZN4absl7debian35Mutex10ReaderLockEv -Wl,--wrap=_ZN4absl7debian35Mutex12ReaderUnlockEv -Wl,--wrap=_ZN4absl7debian35Mutex7TryLockEv -Wl,--wrap=_ZN4absl7debian35MutexD1Ev -o $out @$out.rsp -lglog -Wl,--start-group %s -Wl,--end-group $linkopts -lm -lrt -ldl
  rspfile = $out.rsp
  rspfile_content = $in
  description = SIMLINK $out
rule gen
  command = $cmd
  description = GEN $out
  restat = 1
build gitstamp: phony
""" % (sys.argv[0], CXX, host, CC, host, CXX, sim_, CC, sim_, CXX, SIMDIR,
       CXX, " ".join(ABSL_LIBS), CXX, " ".join(ABSL_LIBS))
for f in sorted(_glob.glob(SIMDIR + "/rt/*.cc")):
    head += ninja("rtcxx", ["sim/_rt/%s.o" % os.path.splitext(os.path.basename(f))[0]], [f])
body = "".join(analyzed[k]["text"] for k in targets if k in needed)
body += "build all: phony " + " ".join(map(esc, uniq(finals))) + "\ndefault all\n"


os.makedirs(OUT, exist_ok=True)
write(OUT + "/build.ninja", head + body)
print("%d targets" % len(needed))
