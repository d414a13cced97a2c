"""Driver of the Python-side properties, run by /opt/vp/venv's interpreter:

pydrive.py PROP CONTEXT.json SEED CASES SECONDS OUT.json [REPLAY.json]

A case is a JSON value drawn by Hypothesis; running it raises AssertionError when the property is violated."""
import hashlib
import importlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True


def main():
    prop, context, seed, cases, seconds, out = sys.argv[1:7]
    seed, cases, seconds = int(seed), int(cases), float(seconds)
    with open(context) as f:
        ctx = json.load(f)
    for p in reversed(ctx["path"]):
        sys.path.insert(0, p)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.append(here)
    module = importlib.import_module({"C24": "prop_keys", "C25": "prop_dispatcher", "C26": "prop_client", "C27": "prop_import"}[prop])
    with open(out + ".case", "w") as f:  # in case of a crash
        f.write("null")
    try:
        suite = module.Suite(ctx)
    except Exception as e:
        if not ctx.get("specs"):
            raise
        message = f"the modules {', '.join(s['module'] for s in ctx['specs'])} cannot be imported together: {type(e).__name__}: {e}"
        print(f"FAILED: {message}")
        with open(out, "w") as f:
            json.dump(dict(evaluations=0, nontrivial=[], samples=[], tags={}, rule="", message=message, case=None, seconds=0), f)
        return 1 if len(sys.argv) > 7 else 0
    if len(sys.argv) > 7:
        with open(sys.argv[7]) as f:
            case = json.load(f)
        if case is None:
            return 0
        try:
            suite.run(case)
        except AssertionError as e:
            print(f"FAILED: {e}")
            return 1
        return 0

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = dict(evaluations=0, nontrivial=set(), samples=[], tags={}, best=None, failed_at=None)
    start = time.time()

    @hypothesis.seed(seed)
    @settings(max_examples=cases, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
              phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
    @given(suite.cases())
    def test(case):
        now = time.time()
        if state["failed_at"] is None and now - start > seconds:
            return
        if state["failed_at"] is not None and now - state["failed_at"] > ctx.get("shrink_seconds", 30):
            return  # enough shrinking: the smallest failing case so far is kept
        text = json.dumps(case, sort_keys=True)
        with open(out + ".case", "w") as f:  # in case of a crash
            f.write(text)
        state["evaluations"] += 1
        try:
            tags = suite.run(case)
        except AssertionError as e:
            state["failed_at"] = state["failed_at"] or now
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, str(e))
            raise
        for t in tags:
            state["tags"][t] = state["tags"].get(t, 0) + 1
        if suite.nontrivial(case, tags):
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in state["nontrivial"]:
                state["nontrivial"].add(h)
                if len(state["samples"]) < 2 and state["evaluations"] > 10:
                    state["samples"].append(case)

    message = None
    try:
        test()
    except BaseException as e:  # the exception of the case, or Flaky when shrinking was cut
        if state["best"] is None:
            raise
        message = state["best"][1]
    finally:
        if hasattr(suite, "close"):
            suite.close()
    with open(out, "w") as f:
        json.dump(dict(evaluations=state["evaluations"], nontrivial=sorted(state["nontrivial"]), samples=state["samples"], tags=state["tags"],
                       rule=suite.RULE, message=message, case=json.loads(state["best"][0]) if state["best"] else None,
                       seconds=time.time() - start), f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
