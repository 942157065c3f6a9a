"""Linearizability of a recorded history against a sequential model."""

import itertools


class History:
    """Operations with the order of their starts and ends."""

    def __init__(self, w):
        self.w = w
        self.ops = []
        self.clock = itertools.count(1)
        self.open = 0

    def start(self, who, name, arg=None):
        op = {
            "who": who, "name": name, "arg": arg, "inv": next(self.clock),
            "ret": None, "res": None, "id": len(self.ops),
        }
        if self.open:
            self.w.reach("overlap")
        self.open += 1
        self.ops.append(op)
        self.w.event(f"start {who} {name}")
        return op

    def end(self, op, res):
        self.open -= 1
        op["ret"] = next(self.clock)
        op["res"] = res
        self.w.event(f"end {op['who']} {op['name']} {show(res)}")


def show(x):
    if isinstance(x, bytes):
        return x[:4].hex() + (".." if len(x) > 4 else "")
    if isinstance(x, tuple):
        return "(" + ", ".join(show(i) for i in x) + ")"
    return str(x)[:60]


def describe(ops):
    return "\n".join(
        f"  [{o['inv']:>3}..{o['ret'] if o['ret'] else '   '}] {o['who']} "
        f"{o['name']}({show(o['arg'])}) -> {show(o['res'])}"
        for o in sorted(ops, key=lambda o: o["inv"]))


class TooHard(Exception):
    pass


def linearizable(ops, initial, step, limit=400_000):
    """
    Whether the operations can be put in an order that respects real time and
    that the model allows.  `step(state, op)` returns the possible following
    states, () when the recorded result is impossible there.  An operation
    that never returned (ret None) may be left out.
    """
    ops = sorted(ops, key=lambda o: o["inv"])
    n = len(ops)
    if not n:
        return True
    rets = [o["ret"] if o["ret"] is not None else float("inf") for o in ops]
    must = 0
    for i, o in enumerate(ops):
        if o["ret"] is not None:
            must |= 1 << i
    seen = set()
    stack = [(0, initial)]
    tries = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        tries += 1
        if tries > limit:
            raise TooHard
        horizon = min(rets[i] for i in range(n) if not done >> i & 1)
        for i in range(n - 1, -1, -1):
            if done >> i & 1 or ops[i]["inv"] > horizon:
                continue
            for nxt in step(state, ops[i]):
                stack.append((done | 1 << i, nxt))
    return False
