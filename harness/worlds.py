"""Case kind: a scheduling world (see world.py)"""
import world


def run(case, scratch, on_hang):
    return world.run_world(case["world"], scratch, case.get("limit", 60), on_hang)
