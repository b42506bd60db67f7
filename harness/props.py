"""Which module decides which property"""
import pure, sched


def run(c):
    for m in (sched, pure):
        if c.prop in m.P:
            return m.run(c)
    raise SystemExit(f"unknown property {c.prop}")
