"""check.py PROPERTY quick|thorough: decides one property on the code in /repo's working tree.

exit 0: it held on everything explored;  exit 1: a VIOLATION line;  exit 2: the check could not be carried out."""
import importlib, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

EVID = os.path.join(lib.VERIF, "evidence")


def known():
    """Findings recorded in known_findings.txt: {(property, key)}"""
    res = {}
    p = os.path.join(lib.VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else ():
        if line.startswith("known:"):
            _, prop, key, what = line.strip().split(None, 3)
            res[(prop.partition("=")[2], key.partition("=")[2])] = what
    return res


class Ctx:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}/{seed}")
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.found, self.known = [], {}, [], known()
        self.t0 = time.time()

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, key, what, data):
        """key identifies the finding (what is listed in known_findings.txt)"""
        self.found.append((key, what, data))

    def elapsed(self):
        return time.time() - self.t0


def main(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = lib.scratch()
    c = Ctx(prop, tier, seed, tmp)
    try:
        import props
        level = props.run(c)
    except lib.CheckError as e:
        print(f"CHECK-FAILED property={prop}: {e}")
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    bad = 0
    seen = set()
    for k, (key, what, data) in enumerate(c.found):
        if (prop, key) in c.known:
            if key not in seen:
                print(f"KNOWN-FINDING: property={prop} {c.known[(prop, key)]}")
            seen.add(key)
            continue
        bad += 1
        if bad > 5:
            continue
        path = os.path.join(EVID, "replay", f"{prop}_{bad}.json")
        json.dump({"property": prop, "key": key, "what": what, "seed": seed, "data": data}, open(path, "w"), indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print("   " + str(what)[:600])
    cov = {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
           "samples": c.samples or ["none"], **c.notes}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "wall_s": round(c.elapsed(), 1), "violations": bad},
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop} {tier}: {'violated' if bad else 'held'} ({c.states} states, {c.traces} traces of the code, {c.elapsed():.0f} s)")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"))
