"""C25: dispatchers exposed to Python"""
import importlib

from hypothesis import strategies as st

import strategies as gen
import unpadded
import wire

NAMES = {unpadded.PacketStatus.LOADING_PACKET: "loading", unpadded.PacketStatus.RESOLVED_PACKET: "resolved",
         unpadded.PacketStatus.DROPPED_PACKET: "dropped"}


class Boom(Exception):
    pass


class NoMoreBytes(Exception):
    pass


class Model:
    """The double-buffered dispatcher over a keyring"""

    def __init__(self, kr):
        self.kr, self.fns = kr, kr["functions"]
        self.isz = wire.index_size(len(self.fns))
        self.inp, self.out = b"", b""
        self.actions = [None] * len(self.fns)  # None: the C++ function; otherwise a behaviour (see Suite.python_function)

    def index(self):
        return int.from_bytes(self.inp[:self.isz], "big" if self.kr["big"] else "little")

    def put(self, b):
        """Return (status, call): call is (function index, arguments) if a function is to be called"""
        self.inp += bytes([b])
        if len(self.inp) < self.isz:
            return "loading", None
        i = self.index()
        if i >= len(self.fns):
            self.inp = b""
            return "dropped", None
        fn = self.fns[i]
        if len(self.inp) < self.isz + sum(map(wire.size, fn["params"])):
            return "loading", None
        args, p = [], self.isz
        for t in fn["params"]:
            args.append(wire.decode(t, self.inp[p:p + wire.size(t)], self.kr))
            p += wire.size(t)
        self.inp = b""
        return "resolved", (i, args)

    def rest(self):
        """Number of bytes before the end of the request in progress, None if the index is not known yet"""
        if len(self.inp) < self.isz:
            return None
        return self.isz + sum(map(wire.size, self.fns[self.index()]["params"])) - len(self.inp)


class Suite:
    RULE = "one case = one history of operations on a fresh dispatcher of a generated module; non-trivial: at least one request is " \
           "resolved and at least one other event happens (drop, replacement, exception, interleaved retrieval)"

    def __init__(self, ctx):
        self.modules = [(s, importlib.import_module(s["module"])) for s in ctx["specs"]]
        self.targets = [(k, j) for k, (s, _) in enumerate(self.modules) for j, kr in enumerate(s["keyrings"]) if kr["dispatcher"]]

    def cases(self):
        def function(kr):
            n = len(kr["functions"])
            return st.integers(0, n - 1) if n < 10 else st.one_of(st.sampled_from([0, 254, 255, n - 1]), st.sampled_from([0, n - 1]), st.integers(0, n - 1))

        @st.composite
        def request(draw, kr):
            n = len(kr["functions"])
            isz = wire.index_size(n)
            order = "big" if kr["big"] else "little"
            if draw(st.integers(0, 7)) == 0:
                i = draw(st.one_of(st.integers(n, 256**isz - 1), st.just(n), st.just(256**isz - 1)))
                return i.to_bytes(isz, order)
            i = draw(function(kr))
            fn = kr["functions"][i]
            b = i.to_bytes(isz, order)
            for t in fn["params"]:
                if draw(st.booleans()):
                    b += wire.encode(t, draw(gen.value(t, kr)), kr)
                else:
                    b += draw(st.binary(min_size=wire.size(t), max_size=wire.size(t)))
            return b

        @st.composite
        def op(draw, kr):
            name = draw(st.sampled_from(["send", "send", "send", "read", "read", "get", "drain", "replace", "replace", "part", "loaded", "bad put",
                                         "source", "noise"]))
            o = dict(op=name)
            if name in ("send", "read", "part", "source"):
                o["bytes"] = draw(request(kr)).hex()
                if name in ("part", "source"):
                    o["n"] = draw(st.integers(0, 30))
                if name == "send":
                    o["interleave"] = draw(st.sampled_from([0, 0, 1, 2]))
            elif name == "noise":
                o["bytes"] = draw(st.binary(min_size=1, max_size=12)).hex()
            elif name == "get":
                o["n"] = draw(st.integers(1, 4))
            elif name == "bad put":
                o["x"] = draw(st.sampled_from([256, -1, 1 << 32, None, "a", 1.5]))
            elif name == "replace":
                o["i"] = i = draw(function(kr))
                fn = kr["functions"][i]
                what = draw(st.sampled_from(["value", "value", "value", "raise", "bad", "once"]))
                o["what"] = what
                if fn["ret"] is None:
                    if what == "bad":
                        o["what"] = "value"
                    o["value"] = draw(st.sampled_from([None, 3, "x"]))
                else:
                    o["value"] = draw(gen.value(fn["ret"], kr))
                    if what == "bad":
                        b = gen.bad_value(fn["ret"], kr)
                        if b is None:
                            o["what"] = "value"
                        else:
                            o["value"] = draw(b)
            return o

        @st.composite
        def case(draw):
            m, k = draw(st.sampled_from(self.targets))
            kr = self.modules[m][0]["keyrings"][k]
            return dict(m=m, k=k, ops=draw(st.lists(op(kr), min_size=1, max_size=14)))

        return case()

    def run(self, c):
        spec, module = self.modules[c["m"]]
        kr = spec["keyrings"][c["k"]]
        module.calls__()
        d = getattr(module, kr["dispatcher"])()
        m = Model(kr)
        log = []  # calls of Python functions
        tags = []
        trace = []

        def where():
            return f"{spec['module']}.{kr['dispatcher']} after [{'; '.join(trace[-12:])}]"

        def check(cond, message):
            if not cond:
                raise AssertionError(f"{message} ({where()})")

        def called(call, raised):
            """Check which function was called, given what the model expects; set the response in the model"""
            cpp = module.calls__()
            if call is None:
                check(not cpp and not log, f"unexpected call {cpp or log}")
                check(raised is None, f"unexpected {raised!r}")
                return
            i, args = call
            fn = kr["functions"][i]
            a = m.actions[i]
            m.out = b""
            if a is None:
                check(not log, f"{fn['name']} was not replaced but {log} was called")
                check([(x, list(map(int, y))) for x, y in cpp] == [(fn["id"], wire.flat(args))], f"calls {cpp} instead of {fn['name']}{tuple(args)}")
                check(raised is None, f"unexpected {raised!r}")
                result = wire.perform(fn, args)
            else:
                check(not cpp, f"{fn['name']} was replaced but the C++ function was called")
                check(len(log) == 1 and log[0][0] == a["tag"], f"calls {log} instead of the replacement {a['tag']} of {fn['name']}")
                check(len(log[0][1]) == len(args) and all(wire.same(x, y) for x, y in zip(log[0][1], args)),
                      f"arguments {log[0][1]} instead of {args}")
                log.clear()
                what = a["what"]
                if what == "once":
                    a["what"] = "value"
                    what = "raise"
                if what == "raise":
                    check(isinstance(raised, Boom), f"the exception of the callable surfaced as {raised!r}")
                    tags.append("callable raises")
                    return
                if what == "bad":
                    check(isinstance(raised, Exception), f"the result {a['value']!r} outside of {fn['ret']} gives no exception")
                    tags.append("bad result")
                    return
                check(raised is None, f"unexpected {raised!r}")
                result = a["value"]
                tags.append("replaced call")
            tags.append("resolved")
            if fn["ret"] is not None:
                m.out = wire.encode(fn["ret"], result, kr)

        def put(b):
            st_, call = m.put(b)
            raised, got = None, None
            try:
                got = d.put(b)
            except Exception as e:
                raised = e
            trace.append(f"put({b}) -> {NAMES.get(got, raised)}")
            if raised is None:
                check(NAMES.get(got) == st_, f"put({b}) is {got!r}, not {st_}")
            if st_ == "dropped":
                tags.append("dropped")
            called(call, raised)

        def get():
            e, m.out = (m.out[0], m.out[1:]) if m.out else (0, b"")
            g = d.get()
            trace.append(f"get() -> {g!r}")
            check(type(g) is int and g == e, f"get() is {g!r}, not {e}")

        def loaded():
            g = d.is_loaded()
            check(g is bool(m.out), f"is_loaded() is {g!r} with {len(m.out)} pending bytes")

        def complete(prefix):
            """Bytes up to the end of the packet in progress, beginning with `prefix`"""
            probe = Model(kr)
            probe.inp = m.inp
            out = b""
            for b in prefix:
                s, _ = probe.put(b)
                out += bytes([b])
                if s != "loading":
                    return out
            while True:
                out += b"\0"
                if probe.put(0)[0] != "loading":
                    return out

        def read(data, fail_after=None):
            it = iter(data[:fail_after] if fail_after is not None else data)
            asked = 0

            def source():
                nonlocal asked
                asked += 1
                for x in it:
                    return x
                raise NoMoreBytes()

            raised, got = None, None
            try:
                got = d.read_from(source)
            except Exception as e:
                raised = e
            trace.append(f"read_from({data.hex()}{'' if fail_after is None else f' failing after {fail_after}'}) -> {NAMES.get(got, raised)}")
            st_, call = "loading", None
            used = 0
            for b in (data if fail_after is None else data[:fail_after]):
                st_, call = m.put(b)
                used += 1
                if st_ != "loading":
                    break
            if st_ == "loading":
                check(isinstance(raised, NoMoreBytes), f"the exception of the source surfaced as {raised!r}")
                called(None, None)
                tags.append("source raises")
                return
            check(asked == used, f"{asked} bytes were requested instead of {used}")
            if raised is None:
                check(NAMES.get(got) == st_, f"read_from is {got!r}, not {st_}")
            if st_ == "dropped":
                tags.append("dropped")
            called(call, raised)

        for n, o in enumerate(c["ops"]):
            name = o["op"]
            loaded()
            if name == "send":
                for b in bytes.fromhex(o["bytes"]):
                    put(b)
                    if o["interleave"] and m.out:
                        tags.append("interleaved")
                        get()
                    if o["interleave"] == 2:
                        loaded()
            elif name == "noise":
                for b in bytes.fromhex(o["bytes"]):
                    put(b)
            elif name == "part":
                for b in bytes.fromhex(o["bytes"])[:o["n"]]:
                    put(b)
            elif name == "read":
                read(complete(bytes.fromhex(o["bytes"])))
            elif name == "source":
                data = complete(bytes.fromhex(o["bytes"]))
                read(data, o["n"] % len(data))
            elif name == "get":
                for _ in range(o["n"]):
                    get()
            elif name == "drain":
                got = []
                d.write_to(got.append)
                trace.append(f"write_to -> {bytes(got).hex()}")
                check(bytes(got) == m.out, f"write_to gives {bytes(got)!r}, not {m.out!r}")
                m.out = b""
            elif name == "bad put":
                try:
                    r = d.put(o["x"])
                except Exception:
                    r = None
                check(r is None, f"put({o['x']!r}) gives {r!r}")
                called(None, None)
            elif name == "replace":
                fn = kr["functions"][o["i"]]
                a = dict(what=o["what"], value=o["value"], tag=n)

                def f(*args, a=a):
                    log.append((a["tag"], list(args)))
                    if a["what"] in ("raise", "once"):
                        raise Boom()
                    return a["value"]

                d.replace(getattr(module, fn["name"]), f)
                trace.append(f"replace({fn['name']}, {o['what']} {o['value']!r})")
                m.actions[o["i"]] = a
                tags.append("replace")
                called(None, None)
        loaded()
        # The dispatcher still works
        data = complete(b"")
        read(data)
        read(complete(b""))
        got = []
        d.write_to(got.append)
        check(bytes(got) == m.out, f"write_to gives {bytes(got)!r}, not {m.out!r}")
        check(d.is_loaded() is False and d.get() == 0, "still loaded after write_to")
        return tags

    def nontrivial(self, c, tags):
        return "resolved" in tags and len(set(tags)) > 1
