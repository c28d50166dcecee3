"""Decision tables over the facts of an abstractly interpreted path.

A rule names the finitely many situations that matter (which of two priorities is larger, whether a child exists, ...) and gives a
representative for each.  Every path of the analysed function is compatible with some of them: a branch fact rules a situation out when its
atom evaluates to the opposite truth value.  What the path does is then compared with what the rule allows in each remaining situation.
Terms the rule does not know evaluate to None, and facts about them rule nothing out."""


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Ev:
    """evaluates engine terms under a situation; `leaf(term)` gives the representative value of the terms the rule knows (or None)"""

    def __init__(self, leaf):
        self.leaf = leaf

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        v = self.leaf(t)
        if v is not None:
            return v
        k = t[0]
        if k in ('c', 'f'):
            return t[1]
        if k == 'cast' and len(t) == 3:
            return self(t[2])
        if k == 'not':
            x = self(t[1])
            return None if x is None else not x
        if k == 'neg' and len(t) == 2:
            x = self(t[1])
            return None if x is None else -x
        if k in ('ite', 'sel', '?') and len(t) == 4:
            c = self(t[1])
            return None if c is None else self(t[2] if c else t[3])
        if k == 'b' and len(t) == 4:
            op, a, b = t[1], self(t[2]), self(t[3])
            if op in ('&&', '||'):
                if a is not None and bool(a) == (op == '||'):
                    return op == '||'
                if b is not None and bool(b) == (op == '||'):
                    return op == '||'
                return None if a is None or b is None else bool(b)
            if a is None or b is None:
                return None
            try:
                if op in ('/', '//', '%'):
                    if isinstance(a, float) or isinstance(b, float):
                        return a / b
                    q = cdiv(int(a), int(b))
                    return q if op != '%' else int(a) - q * int(b)
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b, '<=': lambda: a <= b,
                        '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b,
                        '^': lambda: int(a) ^ int(b), '&': lambda: int(a) & int(b), '|': lambda: int(a) | int(b),
                        '<<': lambda: int(a) << int(b), '>>': lambda: int(a) >> int(b)}[op]()
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                return None
        return None


def compatible(ev, facts):
    """no branch fact of the path contradicts the situation"""
    for a, tv in facts.items():
        if a[0] == 'mark':
            continue
        v = ev(a)
        if v is not None and bool(v) != tv:
            return False
    return True
