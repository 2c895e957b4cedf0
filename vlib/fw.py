"""Check framework: a property is a set of sub-checks; each is (strategy -> JSON-able case) + check(case).

check(case) raises on a violation and returns a bool (case was non-trivial) or (bool, [labels])."""
import json, math

TIER = None


class Violation(AssertionError):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, shards=1, rule=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = {"quick": shards, "thorough": max(shards, 4)} if isinstance(shards, int) else shards
        self.rule = rule


class Prop:
    def __init__(self, pid, targets, subs, rule, assumptions=(), asan=False):
        self.pid, self.targets, self.subs = pid, targets, subs
        self.rule, self.assumptions, self.asan = rule, list(assumptions), asan
        self.by_name = {s.name: s for s in subs}


def close(a, b, rtol=1e-9, atol=1e-12):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def require_close(a, b, what, rtol=1e-9, atol=1e-12):
    if hasattr(a, "__len__") or hasattr(b, "__len__"):
        a, b = list(map(float, a)), list(map(float, b))
        if len(a) != len(b) or not all(close(x, y, rtol, atol) for x, y in zip(a, b)):
            raise Violation("%s: got %r, expected %r" % (what, a, b))
        return
    if not close(a, b, rtol, atol):
        raise Violation("%s: got %r, expected %r" % (what, a, b))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))
