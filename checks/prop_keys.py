"""C24: keys exposed to Python"""
import importlib

from hypothesis import strategies as st

import strategies as gen
import unpadded  # noqa: F401
import wire


class Suite:
    RULE = "one case = one generated operation on one key of a generated module; non-trivial: the operation involves at least one " \
           "parameter or result byte, or must be rejected"

    def __init__(self, ctx):
        self.modules = [(s, importlib.import_module(s["module"])) for s in ctx["specs"]]
        self.keys = [(k, j) for k, (s, _) in enumerate(self.modules) for j in range(len(s["keyrings"]))]

    def cases(self):
        @st.composite
        def case(draw):
            m, k = draw(st.sampled_from(self.keys))
            kr = self.modules[m][0]["keyrings"][k]
            n = len(kr["functions"])
            i = draw(st.one_of(st.integers(0, n - 1), st.sampled_from(sorted({0, n - 1, min(n - 1, 255)}))))
            fn = kr["functions"][i]
            ops = ["encode", "encode", "encode", "decode", "decode", "decode", "bad encode", "short", "count", "names"]
            op = draw(st.sampled_from(ops))
            c = dict(m=m, k=k, i=i, op=op)
            if op in ("encode", "bad encode", "count"):
                c["args"] = [draw(gen.value(t, kr)) for t in fn["params"]]
            if op == "bad encode":
                bad = [(j, b) for j, b in ((j, gen.bad_value(t, kr)) for j, t in enumerate(fn["params"])) if b is not None]
                if not bad:
                    c["op"] = "encode"
                else:
                    j, b = draw(st.sampled_from(bad))
                    c["args"][j] = draw(b)
            elif op == "count":
                if c["args"] and draw(st.booleans()):
                    c["args"].pop(draw(st.integers(0, len(c["args"]) - 1)))
                else:
                    c["args"].insert(draw(st.integers(0, len(c["args"]))), draw(st.integers(0, 1)))
            elif op == "decode":
                t = fn["ret"]
                if t is not None and draw(st.booleans()):
                    c["payload"] = wire.encode(t, draw(gen.value(t, kr)), kr).hex()
                else:
                    n = wire.size(t)
                    c["payload"] = draw(st.binary(min_size=n, max_size=n)).hex()
            elif op == "short":
                n = wire.size(fn["ret"])
                if n == 0:
                    c["op"], c["payload"] = "decode", ""
                else:
                    n = draw(st.integers(0, n - 1))
                    c["payload"] = draw(st.binary(min_size=n, max_size=n)).hex()
            return c

        return case()

    def run(self, c):
        spec, module = self.modules[c["m"]]
        kr = spec["keyrings"][c["k"]]
        i = c["i"]
        fn = kr["functions"][i]
        where = f"{spec['module']}.{fn['name']} (index {i} of {len(kr['functions'])})"
        key = getattr(module, fn["name"], None)
        assert key is not None, f"{where}: no such attribute"
        isz = wire.index_size(len(kr["functions"]))
        op = c["op"]
        if op == "names":
            assert key.index() == i, f"{where}: index() is {key.index()!r}"
            for j, f in enumerate(kr["functions"][:300]):
                assert hasattr(module, f["name"]), f"{f['name']} is not exposed"
                assert getattr(module, f["name"]).index() == j, f"{f['name']} has index {getattr(module, f['name']).index()}, not {j}"
        elif op == "encode":
            expected = i.to_bytes(isz, "big" if kr["big"] else "little") + b"".join(wire.encode(t, v, kr) for t, v in zip(fn["params"], c["args"]))
            for _ in range(2):
                try:
                    got = key.encode(*c["args"])
                except Exception as e:
                    raise AssertionError(f"{where}: encode{tuple(c['args'])} raises {e!r}")
                assert type(got) is bytes and got == expected, f"{where}: encode{tuple(c['args'])} is {got!r}, not {expected!r}"
        elif op in ("bad encode", "count"):
            try:
                got = key.encode(*c["args"])
            except Exception:
                pass
            else:
                raise AssertionError(f"{where}: encode{tuple(c['args'])} gives {got!r} instead of raising; parameters {fn['params']}")
        elif op == "decode":
            b = bytes.fromhex(c["payload"])
            expected = wire.decode(fn["ret"], b, kr)
            try:
                got = key.decode(b)
            except Exception as e:
                raise AssertionError(f"{where}: decode({b!r}) raises {e!r}")
            assert wire.same(got, expected), f"{where}: decode({b!r}) is {got!r}, not {expected!r}"
        else:
            b = bytes.fromhex(c["payload"])
            try:
                got = key.decode(b)
            except Exception:
                pass
            else:
                raise AssertionError(f"{where}: decode({b!r}) gives {got!r} although {wire.size(fn['ret'])} bytes are needed")
        return [op]

    def nontrivial(self, c, tags):
        if c["op"] == "encode":
            return bool(c["args"])
        if c["op"] == "decode":
            return bool(c["payload"])
        return True
