"""Workload dictionary: constants that appear in the code under test now but not in the recorded baseline.

Fuzzers call this an auto-dictionary.  New numbers are used as amounts, production volumes, sizes and
thresholds (c, c-1, c+1, c*(1 +/- eps)), new strings as (parts of) names.  It only biases the workload -
verdicts come from the monitors alone - so it can never raise an alarm by itself.
"""
import ast
import collections
import json
import math
import os

BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline_constants.json')


def mine(root=os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'ocelot')):
    nums, strs = collections.Counter(), collections.Counter()
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(dp, f), encoding='utf-8') as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, ValueError, OSError):
                continue
            rel = os.path.relpath(os.path.join(dp, f), root)
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, (int, float)):
                        if math.isfinite(v):
                            nums[rel, float(v)] += 1
                    elif isinstance(v, str) and 0 < len(v) <= 60:
                        strs[rel, v] += 1
                elif isinstance(node, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(node), '', 'eval'), {'__builtins__': {}}, {})
                        if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e30:
                            nums[rel, float(v)] += 1
                    except Exception:
                        pass
    return nums, strs


_cache = None


def new_constants():
    """(numbers, strings) added since the baseline"""
    global _cache
    if _cache is None:
        with open(BASELINE, encoding='utf-8') as f:
            b = json.load(f)
        nums, strs = mine()
        bn = {(a, c): n for a, c, n in b['numbers']}
        bs = {(a, c): n for a, c, n in b['strings']}
        _cache = (sorted({k[1] for k, n in nums.items() if n > bn.get(k, 0)}),
                  sorted({k[1] for k, n in strs.items() if n > bs.get(k, 0)}))
    return _cache


def write_baseline():
    nums, strs = mine()
    with open(BASELINE, 'w', encoding='utf-8') as f:
        f.write('{"numbers": [\n')
        f.write(',\n'.join(json.dumps([a, c, n]) for (a, c), n in sorted(nums.items())))
        f.write('\n], "strings": [\n')
        f.write(',\n'.join(json.dumps([a, c, n], ensure_ascii=False) for (a, c), n in sorted(strs.items())))
        f.write('\n]}\n')


if __name__ == '__main__':
    write_baseline()
