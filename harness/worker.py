"""worker.py IN OUT: runs the cases of a JSON file on the code in /repo, writes their results.
A case is {"kind": <module of the harness>, ...}; the module's run(case, scratch, on_hang) gives a JSON value."""
import importlib, json, os, shutil, sys, tempfile, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))


def main(inp, out):
    cases = json.load(open(inp))
    scratch = os.path.dirname(os.path.abspath(out))
    done = []

    def save():
        with open(out + ".tmp", "w") as f:
            json.dump(done, f)
        os.replace(out + ".tmp", out)

    def on_hang(res):
        done.append(res)
        save()
        os._exit(0)
    for c in cases:
        mod = importlib.import_module(c["kind"])
        done.append(mod.run(c, scratch, on_hang))
    save()


if __name__ == "__main__":
    sys.stderr = open(os.devnull, "w") if not os.environ.get("VERIF_DEBUG") else sys.stderr
    main(*sys.argv[1:3])
