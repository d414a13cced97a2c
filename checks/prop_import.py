"""C27: importing sources of extension modules"""
import json
import os
import shutil
import subprocess
import sysconfig

from hypothesis import strategies as st

SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")

# Modules of the project, and headers that each may include ("local" ones beside the source, <extra> ones in extra directories)
MODULES = ["alpha", "pkg.beta", "pkg.sub.gamma", "_delta", "Mod2_", "pkg._eps", "unpadded_ext", "m", "pkg.alpha", "hook"]
LOCAL = ["one.hpp", "two.hpp", "dir/three.hpp"]
EXTRA = ["ext_a.hpp", "ext_b.hpp"]
EXTRA_DIRS = ["extra0", "extra1"]

# Imports in one interpreter: a list of actions, the result of each is printed
SCRIPT = r"""
import importlib, json, os, shutil, sys
actions = json.loads(sys.argv[1])
results = []
import unpadded
for a in actions:
    what = a["do"]
    if what == "dirs":
        unpadded.set_extra_include_dirs(a["dirs"])
    elif what == "write":
        for path, text in a["files"]:
            with open(path, "w") as f:
                f.write(text)
    elif what == "import":
        try:
            if a["how"] == 0:
                m = importlib.import_module(a["name"])
            elif a["how"] == 1:
                m = __import__(a["name"], fromlist=["x"])
            else:
                ns = {}
                exec("import " + a["name"] + " as m", ns)
                m = ns["m"]
            r = dict(values={k: getattr(m, k) for k in dir(m) if k.startswith("V_")}, name=m.__name__)
        except ImportError as e:
            r = dict(error="ImportError", kind=type(e).__name__, message=str(e)[:300])
        except BaseException as e:
            r = dict(error=type(e).__name__, message=str(e)[:300])
        results.append(r)
print("RESULTS " + json.dumps(results))
"""


class Suite:
    RULE = "one case = one history of edits (with old, equal or future timestamps) and of imports in new interpreters; non-trivial: a " \
           "module is imported again after an edit of the source or of an included header, or an import fails"

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    # A file of the project: {"v": version, "broken": bool, "includes": [local headers], "extra": [extra headers]}
    def cases(self):
        def body():
            return st.fixed_dictionaries(dict(v=st.integers(0, 99), broken=st.just(False), style=st.integers(0, 5)))

        @st.composite
        def case(draw):
            mods = draw(st.sampled_from([[0], [3], [1], [2], [4], [6], [7], [0, 1], [1, 2], [0, 2], [5, 1], [3, 9], [0, 8], [4, 5], [8, 2], [9]]))
            project = []
            for m in mods:
                headers = draw(st.sampled_from([[], [0], [0, 1], [2], [0, 1, 2]]))  # each includes the next
                extra = draw(st.sampled_from([[], [], [0], [1], [0, 1]]))
                project.append(dict(module=m, headers=headers, extra=extra, style=draw(st.integers(0, 3))))
            dirs = [draw(st.sampled_from([[0], [1], [0, 1], [1, 0]]))] if any(p["extra"] for p in project) else [[]]
            targets = [["src", i] for i in range(len(project))] + [["head", i, h] for i, p in enumerate(project) for h in p["headers"]] \
                + [["extra", d, e] for d in range(2) for e in range(2) if any(e in p["extra"] for p in project)]

            @st.composite
            def edit(draw):
                return dict(do="edit", target=draw(st.sampled_from(targets)), v=draw(st.integers(0, 99)),
                            how=draw(st.sampled_from(["edit", "edit", "edit", "edit", "break", "delete", "out"])),
                            time=draw(st.sampled_from(["now", "now", "past", "same", "future"])))

            steps = []
            for _ in range(draw(st.sampled_from([1, 2, 2, 2, 3]))):
                n = draw(st.sampled_from([0, 1, 1, 1, 2])) if steps else draw(st.sampled_from([0, 0, 0, 1]))
                for _ in range(n):
                    steps.append(draw(edit()))
                if draw(st.integers(0, 5)) == 0:
                    steps.append(dict(do="product", i=draw(st.integers(0, len(project) - 1)), how=draw(st.sampled_from(["corrupt", "old", "touch", "remove"]))))
                session = []
                for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
                    if session and draw(st.booleans()):
                        session.append(draw(edit()))
                    session.append(dict(do="import", i=draw(st.integers(0, len(project) - 1)), how=draw(st.integers(0, 2))))
                steps.append(dict(do="session", actions=session, dirs=draw(st.sampled_from(
                    [dirs, dirs, [[1 - d for d in dirs[0][:1]], dirs[0]]])), cwd=draw(st.integers(0, 2))))
            return dict(project=project, steps=steps, decoy=draw(st.integers(0, 5)) == 0)

        return case()

    def run(self, c):
        self.n += 1
        root = os.path.join(self.ctx["scratch"], f"case{self.n}")
        os.makedirs(root)
        try:
            return Project(self.ctx, root, c).run()
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def nontrivial(self, c, tags):
        return "after an edit" in tags or "import error" in tags or "not built" in tags


class Project:
    def __init__(self, ctx, root, c):
        self.ctx, self.root, self.c = ctx, root, c
        self.files = {}  # path -> state
        self.trace = []
        self.tags = []
        self.path = os.path.join(root, "path")
        for p in ("path/pkg/sub", "path/dir", "path/pkg/dir", "path/pkg/sub/dir", "extra0", "extra1", "elsewhere", "decoy/pkg/sub"):
            os.makedirs(os.path.join(root, p))
        for p in ("path/pkg", "path/pkg/sub"):
            open(os.path.join(root, p, "__init__.py"), "w").close()
        for i, p in enumerate(c["project"]):
            self.files["src", i] = dict(v=1, state="edit")
            for h in p["headers"]:
                self.files["head", i, h] = dict(v=10 + h, state="edit")
        for d in range(2):
            for e in range(2):
                self.files["extra", d, e] = dict(v=20 + 2 * d + e, state="edit")
        for f in self.files:
            path, text = self.render(f)
            self.write(path, text)
        if c["decoy"]:
            # A source which does not opt in, in a directory that comes first
            for p in c["project"]:
                if "." not in MODULES[p["module"]]:
                    self.write(os.path.join(root, "decoy", MODULES[p["module"]] + ".cpp"), "\n".join(self.render(("src", c["project"].index(p)))[1].split("\n")[1:]))
        self.edited = False
        self.imported = set()
        self.old = {}

    def location(self, i):
        name = MODULES[self.c["project"][i]["module"]].split(".")
        return os.path.join(self.path, *name[:-1]), name[-1]

    def filename(self, f):
        if f[0] == "src":
            d, n = self.location(f[1])
            return os.path.join(d, n + ".cpp")
        if f[0] == "head":
            return os.path.join(self.location(f[1])[0], f"h{f[1]}_" + LOCAL[f[2]] if "/" not in LOCAL[f[2]] else f"dir/h{f[1]}_three.hpp")
        return os.path.join(self.root, EXTRA_DIRS[f[1]], EXTRA[f[2]])

    def include(self, i, h):
        return f"h{i}_" + LOCAL[h] if "/" not in LOCAL[h] else f"dir/h{i}_three.hpp"

    def render(self, f):
        s = self.files[f]
        lines = []
        broken = "#error broken" if s["v"] % 2 else "int broken_ = undeclared_name;"
        if f[0] == "src":
            i = f[1]
            p = self.c["project"][i]
            name = self.location(i)[1]
            if s["state"] != "out":
                lines.append(["// cppimport", "/* cppimport */", "//cppimport: an extension"][p["style"] % 3])
            lines.append("#include <Python.h>")
            if p["headers"]:
                lines.append(f'#include "{self.include(i, p["headers"][0])}"')
            for e in p["extra"]:
                lines.append(f"#include <{EXTRA[e]}>")
            if p["style"] == 1:
                lines.append("#include <string_view>\nnamespace a::b { constexpr std::string_view text{\"abc\"}; static_assert(text.size() == 3, \"\"); }")
            if p["style"] == 2:
                lines.append("#include <upd/type.hpp>\ntemplate<auto X> struct constant {}; static_assert(sizeof(constant<1>) > 0, \"\");")
            lines.append(f'static PyModuleDef def = {{PyModuleDef_HEAD_INIT, "{name}", nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}};')
            lines.append(f"PyMODINIT_FUNC PyInit_{name}() {{\n  PyObject *m = PyModule_Create(&def);")
            lines.append(f'  PyModule_AddIntConstant(m, "V_source", {s["v"]:04d} + 0);' if s["v"] % 8 < 8 else "")
            for h in p["headers"]:
                lines.append(f'  PyModule_AddIntConstant(m, "V_head{h}", head{h}_);')
            for e in p["extra"]:
                lines.append(f'  PyModule_AddIntConstant(m, "V_extra{e}", extra{e}_);')
            lines.append("  return m;\n}")
            if s["state"] == "break":
                lines.append(broken)
            lines.append("/*\n<%\nsetup_unpadded(cfg)\n%>\n*/")
        elif f[0] == "head":
            i, h = f[1:]
            hs = self.c["project"][i]["headers"]
            nxt = hs[hs.index(h) + 1:][:1]
            lines.append("#pragma once")
            if nxt:
                lines.append(f'#include "{"../" if h == 2 else ""}{self.include(i, nxt[0])}"')
            lines.append(f"enum {{ head{h}_ = {s['v']:4d} }};")
            if s["state"] == "break":
                lines.append(broken)
        else:
            lines.append(f"#pragma once\nenum {{ extra{f[2]}_ = {s['v']:4d} }};")
            if s["state"] == "break":
                lines.append(broken)
        # Octal constants are avoided, sizes are kept equal
        return self.filename(f), ("\n".join(lines) + "\n").replace(f"{s['v']:04d} + 0", f"{s['v']:4d}")

    @staticmethod
    def write(path, text):
        with open(path, "w") as f:
            f.write(text)

    def apply_edit(self, e, write):
        f = tuple(e["target"])
        how = e["how"]
        if how == "out" and f[0] != "src":
            how = "edit"
        if how == "delete" and f[0] == "src":
            how = "edit"
        s = self.files[f]
        s["v"], s["state"] = e["v"], how
        path = self.filename(f)
        before = os.stat(path).st_mtime_ns if os.path.exists(path) else None
        self.trace.append(f"{how} {os.path.relpath(path, self.root)} v{e['v']} ({e['time']})")
        self.edited = True
        if not write:
            return path, self.render(f)[1]
        if how == "delete":
            if os.path.exists(path):
                os.remove(path)
            return
        self.write(path, self.render(f)[1])
        now = os.stat(path).st_mtime_ns
        t = {"now": now, "past": 978307200 * 10**9, "same": before or now, "future": now + 10**12}[e["time"]]
        os.utime(path, ns=(t, t))

    def expected(self, i, dirs):
        """Values of the module, or the kind of failure"""
        p = self.c["project"][i]
        s = self.files["src", i]
        if s["state"] == "out":
            return "out"
        if s["state"] == "break":
            return "error"
        v = dict(V_source=s["v"])
        for h in p["headers"]:
            f = self.files["head", i, h]
            if f["state"] in ("break", "delete"):
                return "error"
            v[f"V_head{h}"] = f["v"]
        for e in p["extra"]:
            for d in dirs:
                f = self.files["extra", d, e]
                if f["state"] == "break":
                    return "error"
                if f["state"] != "delete":
                    v[f"V_extra{e}"] = f["v"]
                    break
            else:
                return "error"
        return v

    def session(self, step):
        actions, expected = [], []
        for d in step["dirs"]:
            if d or len(step["dirs"]) > 1:
                actions.append(dict(do="dirs", dirs=[os.path.join(self.root, EXTRA_DIRS[x]) for x in d]))
        dirs = step["dirs"][-1]
        loaded = {}
        built = [i for i in range(len(self.c["project"])) if os.path.exists(self.product(i))]
        for a in step["actions"]:
            if a["do"] == "edit":
                e = dict(a, how="edit" if a["how"] in ("delete", "out") else a["how"])
                if self.files[tuple(a["target"])]["state"] == "out":
                    continue
                path, text = self.apply_edit(e, False)
                actions.append(dict(do="write", files=[[path, text]]))
            else:
                i = a["i"]
                x = self.expected(i, dirs)
                if i in loaded:  # a loaded module is not imported again
                    x = loaded[i]
                elif isinstance(x, dict):
                    loaded[i] = x
                if x == "out" and i in built:
                    x = "old"
                actions.append(dict(do="import", name=MODULES[self.c["project"][i]["module"]], how=a["how"]))
                expected.append((i, x))
                self.trace.append(f"import {actions[-1]['name']}")
                if self.edited and i in self.imported:
                    self.tags.append("after an edit")
                self.imported.add(i)
        stamp = {i: self.stamp(i) for i in range(len(self.c["project"]))}
        env = dict(os.environ)
        cwd = [self.path, os.path.join(self.root, "elsewhere"), self.root][step["cwd"]]
        path = [self.ctx["site"]] + ([os.path.join(self.root, "decoy")] if self.c["decoy"] else []) + [self.path]
        env["PYTHONPATH"] = os.pathsep.join(path)
        env["CCACHE_DIR"] = os.path.join(self.ctx["scratch"], "ccache")
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        r = subprocess.run([self.ctx["python"], "-c", SCRIPT, json.dumps(actions)], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL, timeout=250)
        lines = [l for l in r.stdout.decode(errors="replace").splitlines() if "RESULTS " in l]
        if r.returncode or not lines:
            raise AssertionError(f"the interpreter ends with {r.returncode}: {r.stderr.decode(errors='replace')[-600:]} ({'; '.join(self.trace)})")
        results = json.loads(lines[-1].split("RESULTS ", 1)[1])
        for (i, x), r in zip(expected, results):
            name = MODULES[self.c["project"][i]["module"]]
            where = f"({'; '.join(self.trace)}; extra directories {step['dirs']})"
            if x == "error":
                self.tags.append("import error")
                if r.get("error") != "ImportError":
                    raise AssertionError(f"importing {name}, whose build fails, gives {r} instead of ImportError {where}")
            elif x == "out":
                self.tags.append("not built")
                if r.get("error") != "ImportError":
                    raise AssertionError(f"importing {name}, which does not opt in, gives {r} instead of ImportError {where}")
            elif x == "old":
                self.tags.append("not built")
            elif r.get("values") != x or r.get("name") != name:
                raise AssertionError(f"importing {name} gives {r} instead of {x} {where}")
            else:
                self.tags.append("values")
        for i in stamp:
            if self.files["src", i]["state"] == "out" and all(a["do"] == "import" for a in step["actions"]) and self.stamp(i) != stamp[i]:
                raise AssertionError(f"{MODULES[self.c['project'][i]['module']]} does not opt in but is built ({'; '.join(self.trace)})")
            if i not in self.old and os.path.exists(self.product(i)):
                with open(self.product(i), "rb") as f:
                    self.old[i] = f.read()
        if [f for _, _, fs in os.walk(os.path.join(self.root, "decoy")) for f in fs if not f.endswith(".cpp")]:
            raise AssertionError(f"the source which does not opt in is built ({'; '.join(self.trace)})")

    def product(self, i):
        d, n = self.location(i)
        return os.path.join(d, n + SUFFIX)

    def stamp(self, i):
        p = self.product(i)
        return (os.stat(p).st_mtime_ns, os.stat(p).st_size) if os.path.exists(p) else None

    def run(self):
        for step in self.c["steps"]:
            if step["do"] == "edit":
                self.apply_edit(step, True)
            elif step["do"] == "product":
                p = self.product(step["i"])
                how = step["how"]
                if self.files["src", step["i"]]["state"] == "out":
                    continue  # what an earlier build left is imported as any compiled module
                self.trace.append(f"{how} {os.path.relpath(p, self.root)}")
                self.tags.append("tampered")
                if how == "remove" and os.path.exists(p):
                    os.remove(p)
                elif how == "corrupt":
                    with open(p, "wb") as f:
                        f.write(b"not a shared library")
                elif how == "old" and step["i"] in self.old:
                    with open(p, "wb") as f:
                        f.write(self.old[step["i"]])
                elif how == "touch" and os.path.exists(p):
                    t = 4102444800
                    os.utime(p, (t, t))
            else:
                self.session(step)
        return self.tags
