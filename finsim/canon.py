"""Canonical form of answers: structure up to the naming of indices, and the
numbers in it, so that two processes can be compared."""
import hashlib
import numpy as np
import gem
import gem.gem as G


class Canon:
    """Labels indices in order of first appearance over a whole history."""
    def __init__(self):
        self.labels = {}
        self.numbers = []

    def index(self, i):
        if isinstance(i, G.Index):
            if i not in self.labels:
                self.labels[i] = len(self.labels)
            return "i%d:%s" % (self.labels[i], i.extent)
        if isinstance(i, G.VariableIndex):
            return "v" + self.expr(i.expression)
        return repr(int(i)) if isinstance(i, (int, np.integer)) else repr(i)

    def attr(self, x):
        if isinstance(x, (G.IndexBase, G.Index)):
            return self.index(x)
        if isinstance(x, G.Node):
            return self.expr(x)
        if isinstance(x, (tuple, list)):
            return "(" + ",".join(self.attr(y) for y in x) + ")"
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return "o%r[" % (x.shape,) + ",".join(self.attr(y) for y in x.flat) + "]"
            self.numbers.append(np.array(x, dtype=float).ravel())
            return "a%r" % (x.shape,)
        if isinstance(x, (bool, np.bool_, str, type(None))):
            return repr(x)
        if isinstance(x, (int, float, np.number)):
            self.numbers.append(np.array([x], dtype=float))
            return "n"
        return type(x).__name__

    def expr(self, root):
        memo = {}
        stack = [(root, False)]
        while stack:
            n, ready = stack.pop()
            if id(n) in memo:
                continue
            ch = n.children
            if not ready:
                stack.append((n, True))
                stack.extend((c, False) for c in reversed(ch) if id(c) not in memo)
                continue
            parts = [type(n).__name__] + [memo[id(c)] for c in ch]
            for at in tuple(n.__front__) + tuple(n.__back__):
                if at == "dtype":
                    continue
                parts.append(self.attr(getattr(n, at)))
            memo[id(n)] = hashlib.sha1("|".join(parts).encode()).hexdigest()
        return memo[id(root)]

    def value(self, x, depth=0):
        """Structure string of any answer."""
        if isinstance(x, G.Node):
            return self.expr(x)
        if isinstance(x, G.Index):
            return self.index(x)
        if isinstance(x, dict):
            return "{" + ",".join("%s:%s" % (self.value(k), self.value(v)) for k, v in x.items()) + "}"
        if isinstance(x, (set, frozenset)):
            return "set{" + ",".join(sorted(self.value(v) for v in x)) + "}"
        if isinstance(x, (tuple, list, range)):
            return "[" + ",".join(self.value(v) for v in x) + "]"
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return self.value(x.tolist())
            self.numbers.append(np.array(x, dtype=float).ravel())
            return "a%r" % (x.shape,)
        if isinstance(x, (bool, str, type(None), np.bool_, int, np.integer)):
            return repr(x)
        if isinstance(x, (float, np.floating)):
            self.numbers.append(np.array([x], dtype=float))
            return "f"
        return type(x).__name__


SKIP = ("elem", "a", "b", "geo", "ps", "x", "rule", "nested", "parts", "r", "sym")


def of(out, canon):
    """(structure, numbers) of one answer within a history."""
    canon.numbers = []
    s = ";".join("%s=%s" % (k, canon.value(v)) for k, v in sorted(vars(out).items()) if k not in SKIP)
    nums = np.concatenate(canon.numbers) if canon.numbers else np.zeros(0)
    return s, nums
