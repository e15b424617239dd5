#!/usr/bin/env python3
"""Mutation campaign: how many small AST changes do the quick checks notice?

usage: mutate.py OUT.jsonl JOBS MAX SEED FILE:PROP[,PROP...] ...
FILE is relative to impactutils/.  Works on copies below /tmp/mut; survivors
(checks quiet) are listed with their line; run the stable tests on them by
hand, and judge whether they are equivalent.
"""
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

BASE = os.environ.get('MUT_BASE', '/tmp/mut')
REPO = os.environ.get('MUT_REPO', '/repo')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Mult,
       ast.FloorDiv: ast.Mult}


SWAP = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
        'floor': 'ceil', 'ceil': 'floor', 'nanmin': 'nanmax',
        'nanmax': 'nanmin', 'minimum': 'maximum', 'maximum': 'minimum',
        'sin': 'cos', 'cos': 'sin', 'argmin': 'argmax', 'rstrip': 'strip',
        'lstrip': 'strip', 'strip': 'rstrip', 'startswith': 'endswith',
        'endswith': 'startswith', 'lower': 'upper', 'upper': 'lower',
        'append': 'extend', 'round': 'floor', 'isfile': 'exists',
        'isdir': 'exists', 'exists': 'isfile', 'zeros': 'ones',
        'ones': 'zeros', 'zeros_like': 'ones_like', 'hstack': 'vstack'}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and \
                    isinstance(b[0].value, ast.Constant):
                out.add(id(b[0]))
                out.add(id(b[0].value))
    return out


MORE = os.environ.get('MUT_MORE')     # the second set of operators only


def more(n, ln):
    """Other changes: texts, arguments, calls left out, operands, returns."""
    out = []
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
        out.append((ln, 'str', n, lambda n: setattr(
            n, 'value', n.value[:-1] if len(n.value) > 1 else '_')))
    if isinstance(n, ast.Call):
        f = n.func
        for i in range(len(n.keywords)):
            out.append((ln, 'kwdel', n, lambda n, i=i: n.keywords.pop(i)))
        if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred):
            out.append((ln, 'argswap', n, lambda n: n.args.__setitem__(
                slice(0, 2), n.args[1::-1])))
            out.append((ln, 'argdel', n, lambda n: n.args.pop()))
        name = f.attr if isinstance(f, ast.Attribute) else getattr(
            f, 'id', '')
        if name in SWAP:
            def swap(n):
                if isinstance(n.func, ast.Attribute):
                    n.func.attr = SWAP[n.func.attr]
                else:
                    n.func.id = SWAP[n.func.id]
            out.append((ln, 'swap', n, swap))

        def drop(n):
            g = n.func
            x = n.args[0] if n.args else g.value
            n.func = ast.Name('_same', ast.Load())
            n.args, n.keywords = [x], []
        if len(n.args) == 1 and not isinstance(n.args[0], ast.Starred) or (
                not n.args and isinstance(f, ast.Attribute)):
            out.append((ln, 'dropcall', n, drop))
    if isinstance(n, ast.BoolOp):
        for i in range(len(n.values)):
            def only(n, i=i):
                n.values.pop(i)
                if len(n.values) == 1:
                    n.values = n.values * 2
            out.append((ln, 'operand', n, only))
    if isinstance(n, ast.Slice):
        if n.lower is not None:
            out.append((ln, 'slice', n, lambda n: setattr(n, 'lower', None)))
        if n.upper is not None:
            out.append((ln, 'slice', n, lambda n: setattr(n, 'upper', None)))
    if isinstance(n, ast.Return) and n.value is not None:
        out.append((ln, 'return', n, lambda n: setattr(n, 'value', None)))
    if isinstance(n, (ast.For, ast.While)):
        out.append((ln, 'once', n, lambda n: n.body.append(ast.Break())))
    if isinstance(n, (ast.Break, ast.Continue)):
        def other(n):
            n.__class__ = ast.Continue if isinstance(n, ast.Break) \
                else ast.Break
        out.append((ln, 'break', n, other))
    if isinstance(n, ast.Try):
        def bare(n):
            n.handlers[0].body = [ast.Raise()]
        out.append((ln, 'reraise', n, bare))
    return out


def sites(tree):
    """[(description, apply)] on this tree's nodes."""
    doc = docstrings(tree)
    out = []
    inraise = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or (
                isinstance(n, ast.Call) and
                getattr(n.func, 'id', '') in ('print', 'warn')):
            for m in ast.walk(n):
                inraise.add(id(m))
    for n in tree.body:             # tables of constants
        if isinstance(n, ast.Assign) and not isinstance(n.value,
                                                        ast.Constant):
            for m in ast.walk(n):
                inraise.add(id(m))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Raise):
            continue
        if id(n) in inraise:
            continue
        if MORE:
            out += more(n, ln)
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((ln, 'cmp', n, lambda n: n.ops.__setitem__(
                0, CMP[type(n.ops[0])]())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((ln, 'bin', n, lambda n: setattr(
                n, 'op', BIN[type(n.op)]())))
        elif isinstance(n, ast.BoolOp):
            out.append((ln, 'bool', n, lambda n: setattr(
                n, 'op', ast.Or() if isinstance(n.op, ast.And)
                else ast.And())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((ln, 'neg', n, lambda n: setattr(
                n, 'op', ast.UAdd())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((ln, 'not', n, lambda n: setattr(
                n, 'operand', ast.UnaryOp(ast.Not(), n.operand))))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((ln, 'const', n, lambda n: setattr(
                n, 'value', not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int,
                                                                  float)):
            out.append((ln, 'const', n, lambda n: setattr(
                n, 'value', n.value + 1 if isinstance(n.value, int)
                else n.value * 1.3 + (n.value == 0))))
        elif isinstance(n, (ast.If, ast.While)):
            out.append((ln, 'neg-if', n, lambda n: setattr(
                n, 'test', ast.UnaryOp(ast.Not(), n.test))))
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list) or isinstance(n, ast.Module) or \
                    isinstance(n, ast.ClassDef):
                continue
            for i, s in enumerate(b):
                if id(s) in doc or not isinstance(
                        s, (ast.Expr, ast.Assign, ast.AugAssign,
                            ast.Continue, ast.Break, ast.Raise)):
                    continue
                if isinstance(s, ast.Expr) and isinstance(
                        s.value, ast.Call) and getattr(
                            s.value.func, 'id', '') == 'print':
                    continue
                out.append((s.lineno, 'del', n, lambda n, f=field, i=i:
                            getattr(n, f).__setitem__(i, ast.Pass())))
    return out


def worker(args):
    idx, f, k, props, seed = args
    me = multiprocessing.current_process()._identity[0]
    repo = os.path.join(BASE, 'r%d' % me)
    ver = os.path.join(BASE, 'v%d' % me)
    if not os.path.isdir(repo):
        shutil.copytree(REPO, repo, symlinks=True)
        shutil.copytree('/verif', ver, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'evidence',
                                                      'replays'))
    path = os.path.join(repo, 'impactutils', f)
    src = open(os.path.join(REPO, 'impactutils', f)).read()
    tree = ast.parse(src)
    ln, kind, node, fn = sites(tree)[k]
    old = ast.unparse(ast.parse(src)).split('\n')
    fn(node)
    ast.fix_missing_locations(tree)
    text = ast.unparse(tree)
    if '_same(' in text:
        text = text + '\n\ndef _same(x):\n    return x\n'
    new = text.split('\n')
    diff = [(a, b) for a, b in zip(old, new) if a != b][:1]
    res = {'file': f, 'line': ln, 'kind': kind, 'k': k,
           'diff': [x.strip()[:200] for x in diff[0]] if diff else '?',
           'caught': None}
    open(path, 'w').write(text)
    try:
        for p in props:
            try:
                r = subprocess.run(
                    ['bash', os.path.join(ver, 'check.sh'), p, '--tier',
                     'quick'], cwd=ver, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True, timeout=600,
                    env=dict(os.environ, VP_REPO=repo, VERIF_SEED=str(seed)))
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, 'timeout'
            if rc == 1 and 'VIOLATION property=' + p in o:
                how = [x for x in o.splitlines() if x.startswith('FAILED')]
                res['caught'] = p
                res['how'] = how[0][:150] if how else ''
                break
            if rc != 0:
                res['odd'] = '%s rc=%d %s' % (p, rc, o[-300:])
    finally:
        open(path, 'w').write(src)
    return res


def main():
    out, jobs, mx, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), \
        int(sys.argv[4])
    rnd = random.Random(seed)
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    todo = []
    for spec in sys.argv[5:]:
        f, props = spec.split(':')
        n = len(sites(ast.parse(open(REPO + '/impactutils/' + f).read())))
        ks = list(range(n))
        rnd.shuffle(ks)
        print(f, n, 'sites')
        todo += [(0, f, k, props.split(','), seed) for k in ks[:mx]]
    rnd.shuffle(todo)
    caught = 0
    with multiprocessing.Pool(jobs) as pool, open(out, 'a') as fh:
        for i, r in enumerate(pool.imap_unordered(worker, todo)):
            caught += bool(r['caught'])
            fh.write(json.dumps(r) + '\n')
            fh.flush()
    shutil.rmtree(BASE, ignore_errors=True)
    print('caught', caught, 'of', len(todo))


if __name__ == '__main__':
    main()
