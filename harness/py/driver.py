"""Runs the scripts of amzn-smt-prediction on request: one JSON request per line on stdin, one JSON
answer per line on stdout. Every request is served in a forked child, so requests cannot influence
each other; external programs, the clock and the prediction service are replaced as asked."""
import builtins, io, json, os, re, runpy, sys, traceback, types

sys.dont_write_bytecode = True
SCRIPTS = sys.argv[1]
sys.path.insert(0, SCRIPTS)


def stub(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


CALLS = []
REPLY = [None]


class Predictor:
    def __init__(self, endpoint, serializer=None, **_):
        self.endpoint = endpoint

    def predict(self, features):
        CALLS.append({"endpoint": self.endpoint, "features": list(features)})
        return json.dumps(REPLY[0][self.endpoint]).encode()


sm = stub("sagemaker")
sm.predictor = stub("sagemaker.predictor", Predictor=Predictor)
sm.serializers = stub("sagemaker.serializers", CSVSerializer=lambda *a, **k: None)
sm.deserializers = stub("sagemaker.deserializers", CSVDeserializer=lambda *a, **k: None)
stub("numpy", argmax=lambda v: max(range(len(v)), key=lambda i: v[i]), argmin=lambda v: min(range(len(v)), key=lambda i: v[i]),
     argsort=lambda v: sorted(range(len(v)), key=lambda i: v[i]), max=max, amax=max, min=min, amin=min, round=round, around=round,
     array=list, asarray=list, nan=float("nan"), isnan=lambda x: x != x)

import subprocess, time  # noqa: E402
for m in ("clean_eager_lazy_data", "get_word_counts", "get_word_count_features", "get_solver_output", "generate_predictions"):
    try:
        __import__(m)
    except BaseException:
        pass  # reported when a request needs it
REAL_RUN = subprocess.run


def serve(q):
    op = q["op"]
    out = {}
    if op == "features":
        import get_word_count_features as g
        b = q["buckets"]
        res = []
        for counts in q["counts"]:
            lines = [f"{c}\n" for c in counts]
            if b is None:
                res.append([g.get_bucket_labels(), g.get_features(iter(lines))])
            else:
                res.append([g.get_bucket_labels(list(b)), g.get_features(iter(lines), list(b))])
        out["res"] = res
    elif op == "words":
        import get_word_counts as w
        res = []
        for text in q["texts"]:
            f = io.StringIO()
            w.write_word_counts(io.StringIO(text, newline=None), f)
            res.append(f.getvalue())
        out["res"] = res
    elif op == "eager":
        import generate_predictions as g
        out["res"] = g.parse_eager_encoding_output(q["text"], "bench")
    elif op == "normalize":
        import generate_predictions as g
        out["res"] = [g.normalize_features(*x) for x in q["sets"]]
    elif op == "experiment":
        # the functions that read the files of one query of an experiment
        class Series(list):
            def __init__(self, data=(), *a, **k):
                super().__init__(data.values() if isinstance(data, dict) else data if isinstance(data, (list, tuple)) else [data])
        stub("pandas", Series=Series, DataFrame=dict)
        stub("numpy", nan=float("nan"), isnan=lambda x: x != x)
        plt = stub("matplotlib.pylab")
        stub("matplotlib", pylab=plt, pyplot=plt)
        sys.argv = [q["script"]]
        g = runpy.run_path(q["script"])
        os.chdir(q["cwd"])
        out["res"] = []
        for item in q["items"]:
            for name, text in item["files"].items():
                if text is None:
                    if os.path.exists(name):
                        os.remove(name)
                else:
                    with open(name, "wb") as f:
                        f.write(text.encode("latin-1"))
            vals = list(g[q["function"]](q["query"]))
            out["res"].append([None if v is None or v != v else v for v in vals])
    elif op == "table":
        # the whole analysis of a directory, with the parts of pandas that it uses
        import frame
        stub("pandas", Series=frame.Series, DataFrame=frame.DataFrame)
        stub("numpy", nan=float("nan"), isnan=lambda x: x != x)
        plt = stub("matplotlib.pylab")
        stub("matplotlib", pylab=plt, pyplot=plt)
        os.chdir(q["cwd"])
        sys.argv = [q["script"]] + q["args"]
        try:
            g = runpy.run_path(q["script"])
            show = lambda d: {c: [None if v != v else v for v in d.cols[c]] for c in d.cols}
            summary = g["get_summary_table"](g["rel_results"])
            out["res"] = {
                "table": show(g["ret_frame"]),
                "kept": show(g["rel_results"]),
                "summary": [show(d) for d in summary],
                "rows": [list(d.index) for d in summary],
            }
        except Exception as e:
            # a script that is organised in another way or uses more of pandas than the stand-in has
            at = traceback.extract_tb(e.__traceback__)[-1].filename
            beyond = isinstance(e, (AttributeError, TypeError)) and re.search("Series|DataFrame|Row|module '(pandas|numpy|matplotlib)", str(e))
            if not (beyond or os.path.basename(at) in ("frame.py", "driver.py")):
                raise
            out["res"] = {"beyond": repr(e)}
    elif op == "main":
        # runs a script as the main program with scripted external programs and clock
        clock = [1000.0]
        log = []
        if q.get("programs") is not None:
            def run(cmd, shell=False, timeout=None, capture_output=False, text=False, **_):
                words = cmd.split() if shell else list(cmd)
                name = os.path.basename(words[0])
                log.append(words)
                if name in q.get("real", []):
                    return REAL_RUN(cmd, shell=shell, timeout=timeout, capture_output=capture_output, text=text)
                for p in q["programs"]:
                    if p["name"] == name and all(a in words for a in p.get("args", [])) and p.get("bench", words[-1]) == words[-1]:
                        d = p["secs"]
                        if timeout is not None and d > timeout:
                            clock[0] += timeout
                            partial = p.get("partial")
                            raise subprocess.TimeoutExpired(cmd, timeout, output=partial.encode() if partial else None)
                        clock[0] += d
                        o = p.get("out", "")
                        if not capture_output:
                            o = None
                            return subprocess.CompletedProcess(cmd, 0)
                        return subprocess.CompletedProcess(cmd, 0, o if text else o.encode(), "" if text else b"")
                raise AssertionError(f"unexpected program: {words}")
            subprocess.run = run
            for name in ("time", "perf_counter", "monotonic"):
                setattr(time, name, lambda: clock[0])
        REPLY[0] = q.get("replies")
        for m in list(sys.modules):
            f = getattr(sys.modules[m], "__file__", None) or ""
            if f.startswith(SCRIPTS):
                del sys.modules[m]
        os.chdir(q["cwd"])
        sys.argv = [q["script"]] + q["args"]
        buf = io.StringIO()
        old = sys.stdout
        sys.stdout = buf
        code = 0
        error = None
        try:
            runpy.run_path(os.path.join(SCRIPTS, q["script"]), run_name="__main__")
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:  # python would print a traceback and exit with status 1
            code, error = 1, f"{type(e).__name__} {e}"
        finally:
            sys.stdout = old
        out = {"res": {"code": code, "stdout": buf.getvalue(), "calls": CALLS, "log": log, "error": error}}
    return out


real_out = os.fdopen(os.dup(1), "w")
os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
for line in sys.stdin:
    q = json.loads(line)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            a = serve(q)
        except SystemExit as e:
            a = {"err": f"exit: the script ends with status {e.code}"}
        except BaseException as e:
            a = {"err": f"exception: {type(e).__name__} {e}"}
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(a))
            f.flush()
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        a = f.read()
    os.waitpid(pid, 0)
    real_out.write((a or '{"err": "crash: no answer"}') + "\n")
    real_out.flush()
