"""C26: calls through a Python client"""
import asyncio
import importlib

from hypothesis import strategies as st

import strategies as gen
import unpadded
import wire


class TransportError(Exception):
    pass


class Silent:
    """Response that is not bytes"""

    def __bytes__(self):
        return b"\1\2\3\4\5\6\7\10"


class Suite:
    RULE = "one case = one schedule of starts, completions and cancellations of calls to generated keys; non-trivial: at least two " \
           "calls are in flight together, or a call ends otherwise than by a decoded response"

    def __init__(self, ctx):
        self.modules = [(s, importlib.import_module(s["module"])) for s in ctx["specs"]]
        self.keys = [(m, k, f) for m, (s, _) in enumerate(self.modules) for k, kr in enumerate(s["keyrings"]) for f in range(len(kr["functions"]))]
        self.loop = asyncio.new_event_loop()

    def close(self):
        self.loop.close()

    def cases(self):
        @st.composite
        def call(draw):
            m, k, f = draw(st.sampled_from(self.keys))
            kr = self.modules[m][0]["keyrings"][k]
            fn = kr["functions"][f]
            c = dict(key=[m, k, f], args=[draw(gen.value(t, kr)) for t in fn["params"]], client=draw(st.integers(0, 2)))
            kind = draw(st.sampled_from(["value", "value", "value", "bytes", "object", "error", "short", "cancel", "bad"]))
            if kind == "bad":
                j = draw(st.integers(0, len(c["args"])))
                if j < len(c["args"]):
                    b = gen.bad_value(fn["params"][j], kr)
                    if b is None:
                        kind = "value"
                    else:
                        c["args"][j] = draw(b)
                else:
                    c["args"].append(0)  # one too many
            size = wire.size(fn["ret"])
            if kind == "short" and not size:
                kind = "value"
            if kind == "value":
                c["response"] = draw(gen.value(fn["ret"], kr)) if fn["ret"] else None
            elif kind == "bytes":
                c["response"] = draw(st.binary(min_size=size, max_size=size)).hex()
            elif kind == "short":
                c["response"] = draw(st.binary(max_size=size - 1)).hex()
            elif kind == "object":
                c["response"] = draw(st.sampled_from([None, 0, 12, "", "abcdefgh", [], "object", "silent", "exception", "future", True, 1.5, "tuple"]))
            elif kind == "error":
                c["response"] = draw(st.sampled_from(["now", "later"]))
            c["kind"] = kind
            c["transport"] = draw(st.sampled_from(["future", "coroutine", "immediate", "event", "hops"]))
            return c

        return st.fixed_dictionaries(dict(calls=st.lists(call(), min_size=1, max_size=7), schedule=st.lists(st.integers(0, 11), max_size=16),
                                          base=st.sampled_from(["", "", "", "plain", "super", "derived"])))

    def run(self, c):
        return self.loop.run_until_complete(self.scenario(c))

    async def scenario(self, c):
        loop, tags = self.loop, []
        modules = self.modules
        suite = self
        requests = []  # (client, payload)
        plan = {}  # task -> call

        class Client(unpadded.Client):
            def new_request(self, payload):
                state = plan[asyncio.current_task()]
                requests.append((self, payload))
                state["requests"] += 1
                call = state["call"]
                if call["kind"] == "error" and call["response"] == "now":
                    raise state["error"]
                how = call["transport"]
                if how == "immediate" and call["kind"] != "cancel":
                    fut = loop.create_future()
                    suite.settle(fut, state)
                    state["settled"] = True
                    return fut
                state["future"] = fut = loop.create_future()
                if how == "future":
                    return fut

                async def wait():
                    r = await fut
                    if how == "hops":
                        for _ in range(3):
                            await asyncio.sleep(0)
                    return r

                if how == "event":
                    return loop.create_task(wait())
                return wait()

        if c["base"]:
            tags += await self.base(c, requests)
        clients = [Client() for _ in range(3)]
        states = []
        for call in c["calls"]:
            m, k, f = call["key"]
            kr = modules[m][0]["keyrings"][k]
            fn = kr["functions"][f]
            s = dict(call=call, kr=kr, fn=fn, pykey=getattr(modules[m][1], fn["name"]), future=None, requests=0, task=None, settled=False,
                     error=TransportError(), over=False)
            s["value"] = self.response(s)
            states.append(s)
        waiting = list(states)
        in_flight = []

        def text(s):
            return f"{s['fn']['name']}{tuple(s['call']['args'])} answered with {s['call']['kind']} {s['call'].get('response')!r}"

        def check(cond, message, s):
            if not cond:
                raise AssertionError(f"{message} ({text(s)}; {len(in_flight)} calls in flight)")

        async def settle_down():
            for _ in range(8):
                await asyncio.sleep(0)

        async def verify(s):
            """The call has received its response"""
            check(s["task"].done(), "the call is not over once its response is there", s)
            s["over"] = True
            call, fn = s["call"], s["fn"]
            kind = call["kind"]
            if kind == "cancel":
                check(s["task"].cancelled(), f"the cancelled call ends otherwise", s)
                tags.append("cancelled")
                return
            check(not s["task"].cancelled(), "the call is cancelled", s)
            e = s["task"].exception()
            if kind in ("bad", "short"):
                check(isinstance(e, Exception) and not isinstance(e, TransportError), f"no exception is raised but {e!r}", s)
                tags.append(kind)
                return
            if kind == "error":
                check(e is s["error"], f"the error of the transport surfaces as {e!r}", s)
                tags.append("error")
                return
            check(e is None, f"unexpected {e!r}", s)
            r = s["task"].result()
            if kind == "object":
                check(r is s["value"], f"gives {r!r} instead of the object of the transport", s)
                tags.append("object")
                return
            expected = wire.decode(fn["ret"], s["value"], s["kr"])
            check(wire.same(r, expected), f"gives {r!r} instead of {expected!r}", s)
            tags.append("response")

        async def start(s):
            before = len(requests)
            call = s["call"]
            client = clients[call["client"]]
            s["task"] = loop.create_task(client.call(s["pykey"], *call["args"]))
            plan[s["task"]] = s
            await settle_down()
            new = requests[before:]
            if call["kind"] == "bad":
                check(not new, f"a request is sent although the arguments are invalid: {new}", s)
                await verify(s)
                return
            expected = wire.index_bytes(s["kr"], call["key"][2]) + b"".join(wire.encode(t, v, s["kr"]) for t, v in zip(s["fn"]["params"], call["args"]))
            check(len(new) == 1, f"{len(new)} requests are sent", s)
            check(new[0][0] is client, "the request goes through another client", s)
            check(type(new[0][1]) is bytes and new[0][1] == expected, f"the request is {new[0][1]!r} instead of {expected!r}", s)
            if call["kind"] == "error" and call["response"] == "now" or s["settled"]:
                await verify(s)
            else:
                check(not s["task"].done(), f"the call is over before its response is there: {s['task']!r}", s)
                in_flight.append(s)
                if len(in_flight) > 1:
                    tags.append("concurrent")

        async def complete(s):
            in_flight.remove(s)
            if s["call"]["kind"] == "cancel":
                s["task"].cancel()
            else:
                self.settle(s["future"], s)
            await settle_down()
            await verify(s)

        for x in c["schedule"] + [None] * (2 * len(states)):
            n = len(in_flight)
            if x is None:
                if waiting:
                    await start(waiting.pop(0))
                elif in_flight:
                    await complete(in_flight[-1])
            elif x < 4 and waiting:
                await start(waiting.pop(0))
            elif in_flight:
                if x >= n:
                    tags.append("out of order")
                await complete(in_flight[x % n])
            for s in in_flight:
                check(not s["task"].done(), f"the call ended because of another one: {s['task']!r}", s)
                check(s["requests"] == 1, f"{s['requests']} requests", s)
        for s in states:
            check(s["over"] and s["task"].done() and s["requests"] == (s["call"]["kind"] != "bad"), "the call is lost", s)
        if len(requests) != sum(s["requests"] for s in states):
            raise AssertionError("requests are sent on their own")
        return tags

    @staticmethod
    def response(s):
        call, fn = s["call"], s["fn"]
        kind = call["kind"]
        if kind == "value":
            return wire.encode(fn["ret"], call["response"], s["kr"]) if fn["ret"] else b""
        if kind in ("bytes", "short"):
            return bytes.fromhex(call["response"])
        if kind == "object":
            r = call["response"]
            return {"object": object(), "silent": Silent(), "exception": ValueError("a value"), "future": asyncio.Event(),
                    "tuple": (b"\1", b"\2")}.get(r, r) if isinstance(r, str) else r
        return b"\0" * wire.size(fn["ret"])

    @staticmethod
    def settle(fut, s):
        if s["call"]["kind"] == "error":
            fut.set_exception(s["error"])
        else:
            fut.set_result(s["value"])

    async def base(self, c, requests):
        """A client without a transport"""
        class Super(unpadded.Client):
            def new_request(self, payload):
                return super().new_request(payload)

        class Derived(unpadded.Client):
            pass

        client = {"plain": unpadded.Client, "super": Super, "derived": Derived}[c["base"]]()
        call = c["calls"][0]
        m, k, f = call["key"]
        fn = self.modules[m][0]["keyrings"][k]["functions"][f]
        if call["kind"] == "bad":
            return []
        try:
            r = await client.call(getattr(self.modules[m][1], fn["name"]), *call["args"])
        except NotImplementedError:
            return ["no transport"]
        except Exception as e:
            r = e
        raise AssertionError(f"a client without a transport gives {r!r} instead of NotImplementedError")

    def nontrivial(self, c, tags):
        return any(t in tags for t in ("concurrent", "object", "error", "cancelled", "bad", "short", "no transport"))
