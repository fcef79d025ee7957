#!/opt/venv/bin/python
"""tools/mutate.py FILE [N] [SEED] [WORKERS] [OUT]: mutation testing of the checks.
Plants small random changes in a scratch copy of /repo and reports those no
check of the list for that file notices.  Development only."""
import warnings; warnings.simplefilter("ignore")
import ast, concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile, difflib, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "filter.py": "C30 C01 C02 C03 C05 C04 C11 C28 C27 C07 C08 C25 C06",
    "smoother.py": "C30 C07 C08 C09 C10 C27 C28 C18 C19 C06",
    "simulator.py": "C02 C05 C11 C24 C27 C06",
    "interfaces.py": "C30 C01 C03 C05 C07 C09 C10 C04 C15 C06",
    "models/nlg.py": "C15 C21 C22 C09 C10 C27 C28",
    "models/ltv.py": "C16 C22 C23 C24 C14",
    "models/mlnlg.py": "C17 C21 C22 C23 C30 C18 C19",
    "models/rbpf.py": "C17 C27 C30 C20 C18 C19",
    "models/hierarchial.py": "C21 C20 C26 C27",
    "paramest/paramest.py": "C24 C25",
    "paramest/interfaces.py": "C24 C22 C23 C25",
    "paramest/gradienttest.py": "C23",
    "utils/kalman.py": "C12 C13 C16 C14 C17",
    "utils/mlnlg_compute.py": "C14 C23",
    "utils/intrument.py": "C26",
    "utils/pdf.py": "C29"}


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(src):
    """yield (description, start offset, end offset, replacement)"""
    tree = ast.parse(src)
    lines = [0]
    for l in src.splitlines(True):
        lines.append(lines[-1] + len(l.encode()))
    bsrc = src.encode()

    def off(line, col):
        return lines[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    docs = set()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            skip.add(n.body[0].value)
        if isinstance(n, ast.Raise):
            for q in ast.walk(n):
                skip.add(q)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            for q in ast.walk(n):
                skip.add(q)
    out = []

    def add(n, d, rep, sp=None):
        a, b = sp or span(n)
        out.append((d, a, b, rep.encode() if isinstance(rep, str) else rep))
    txt = lambda n: bsrc[slice(*span(n))].decode()
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            mid = bsrc[a:b].decode()
            for cls, o, r in ((ast.Add, "+", "-"), (ast.Sub, "-", "+"), (ast.Mult, "*", "/"), (ast.Div, "/", "*")):
                if isinstance(n.op, cls) and mid.count(o) == 1:
                    add(n, "op", mid.replace(o, r), (a, b))
        elif isinstance(n, ast.AugAssign):
            a, b = span(n.target)[1], span(n.value)[0]
            mid = bsrc[a:b].decode()
            if "+=" in mid:
                add(n, "aug", mid.replace("+=", "-="), (a, b)); add(n, "aug=", mid.replace("+=", "="), (a, b))
            if "-=" in mid:
                add(n, "aug", mid.replace("-=", "+="), (a, b))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = bsrc[a:b].decode()
            for cls, o, r in ((ast.Lt, "<", "<="), (ast.LtE, "<=", "<"), (ast.Gt, ">", ">="), (ast.GtE, ">=", ">"), (ast.Eq, "==", "!="),
                              (ast.NotEq, "!=", "=="), (ast.Is, "is", "is not"), (ast.IsNot, "is not", "is")):
                if isinstance(n.ops[0], cls) and o in mid:
                    add(n, "cmp", mid.replace(o, r), (a, b))
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            add(n, "noT", txt(n.value))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            add(n, "const", repr(v + 1)); add(n, "const", repr(v * 2 if v else -1))
            if v and type(v) is int:
                add(n, "const", repr(v - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, "bool", repr(not n.value))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "neg", "(" + txt(n.operand) + ")")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = bsrc[a:b].decode()
            w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            add(n, "boolop", mid.replace(*w), (a, b))
        elif isinstance(n, (ast.If,)):
            add(n.test, "ifnot", "not (" + txt(n.test) + ")")
        elif isinstance(n, ast.Call):
            f = txt(n.func)
            if f in ("numpy.copy", "copy.copy", "copy.deepcopy", "np.copy") and n.args:
                add(n, "nocopy", txt(n.args[0]))
            if f.endswith(".copy") and not n.args and isinstance(n.func, ast.Attribute):
                add(n, "nocopy", txt(n.func.value))
            pos = [x for x in n.args if not isinstance(x, ast.Starred)]
            for x, y in zip(pos, pos[1:]):
                if txt(x) != txt(y):
                    a, b = span(x)[0], span(y)[1]
                    add(n, "swap", txt(y) + ", " + txt(x), (a, b))
            for k1, k2 in zip(n.keywords, n.keywords[1:]):
                if txt(k1.value) != txt(k2.value):
                    a, b = span(k1.value)[0], span(k2.value)[1]
                    mid = bsrc[span(k1.value)[1]:span(k2.value)[0]].decode()
                    add(n, "swapkw", txt(k2.value) + mid + txt(k1.value), (a, b))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower is not None:
                add(s.lower, "slice", "(" + txt(s.lower) + ") + 1")
            if s.upper is not None:
                add(s.upper, "slice", "(" + txt(s.upper) + ") - 1"); 
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.Name, ast.BinOp)):
            add(n.slice, "index", "(" + txt(n.slice) + ") - 1")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and n not in docs and isinstance(n.value, ast.Call) and n.value not in skip):
            add(n, "delete", "pass")
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            pass
    if os.environ.get("MUT_COND"):
        out = conditional(tree, bsrc, out, span)
    res = []
    for d, a, b, r in out:
        new = bsrc[:a] + r + bsrc[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        line = bsrc[:a].count(b"\n") + 1
        res.append((d, line, new))
    return res


HELPER = b"""

def _c(f):
    try:
        return bool(f())
    except Exception:
        return False
"""
CONDS = {
    "particles": ["len(particles) == 1", "len(particles) > 7", "len(particles) % 2 == 1", "(particles == particles[0]).all()"],
    "t": ["t >= 3", "t == 0", "t == 1"], "u": ["u is None", "u is not None", "numpy.any(numpy.asarray(u) < 0)"],
    "y": ["y is None", "numpy.any(numpy.asarray(y) < 0)", "len(y) > 1"], "cur_ind": ["cur_ind == 0", "cur_ind >= 3", "cur_ind == 1"],
    "find": ["len(set(find)) < len(find)", "len(find) == 1", "find[0] != 0"],
    "ancestors": ["len(set(ancestors)) < len(ancestors)", "ancestors[0] != 0", "len(set(ancestors)) == 1"],
    "anc": ["len(set(anc)) < len(anc)", "anc[0] != 0"], "pind": ["pind[0] != 0", "len(pind) == 1"],
    "next_part": ["len(next_part) == 1", "len(next_part) > 3"], "M": ["M == 1", "M > 5"], "N": ["N == 1", "N > 7"],
    "num_traj": ["num_traj == 1", "num_traj > 5"], "part": ["len(part) == 1", "len(part) > 5"],
    "ptraj": ["len(ptraj) == 1", "len(ptraj) > 3"], "future_trajs": ["len(future_trajs) == 1", "len(future_trajs) > 2"],
    "past_trajs": ["len(past_trajs) == 1", "len(past_trajs) > 2"], "self": ["self.lz > 1", "self.kf.lz > 1", "self.lxi > 1", "self.lz != self.lxi",
    "self.kf.lz > 2"], "z": ["len(z) > 1", "numpy.any(z < 0)"], "P": ["P.shape[0] > 1", "(P == 0).any()"], "err": ["len(err) == 1", "(err < 0).any()"],
    "params": ["len(params) > 1", "params[0] < 0"], "traj": ["len(traj) > 2"], "k": ["k >= 2"], "max_iter": ["max_iter > 2"]}


def conditional(tree, bsrc, out, span):
    """the mutations, taking effect only under a condition on an argument or loop variable"""
    rng = random.Random(int(os.environ["MUT_COND"]))
    stm = []

    def visit(n, names, infun):
        for c in ast.iter_child_nodes(n):
            nm, inf = names, infun
            if isinstance(c, ast.FunctionDef):
                nm, inf = [a.arg for a in c.args.args], True
            elif isinstance(c, ast.For) and isinstance(c.target, ast.Name):
                nm = names + [c.target.id + "#"]
            if inf and isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)):
                stm.append((span(c), nm))
            visit(c, nm, inf)
    visit(tree, [], False)
    res = []
    for d, a, b, r in out:
        for (x, y), names in stm:
            if x <= a and b <= y:
                cs = []
                for q in names:
                    if q.endswith("#"):
                        cs += ["%s %s" % (q[:-1], e) for e in ("== 0", ">= 1", "== 1", ">= 3")] 
                    else:
                        cs += [e for e in CONDS.get(q, []) if q != "self" or e.split()[0].encode() in bsrc]
                if not cs:
                    break
                ind = b" " * (x - (bsrc.rfind(b"\n", 0, x) + 1))
                if bsrc[x - len(ind):x] != ind:
                    break
                nl = b"\r\n" if b"\r\n" in bsrc else b"\n"
                for cond in rng.sample(cs, min(2, len(cs))):
                    new = b"if _c(lambda: " + cond.encode() + b"):" + nl + ind + b"    " + bsrc[x:a] + r + bsrc[b:y] + nl + ind + b"else:" + nl + \
                        ind + b"    " + bsrc[x:y]
                    res.append((d + " if " + cond, x, len(bsrc), new + bsrc[y:] + HELPER))
                break
    return res


def run(cmd, env, cwd, timeout):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def one(rel, m, jobs):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree(SNAP, repo)
        f = os.path.join(repo, "pyparticleest", rel)
        old = open(f, "rb").read()
        open(f, "wb").write(m[2])
        diff = [l for l in difflib.unified_diff(old.decode().splitlines(), m[2].decode().splitlines(), lineterm="", n=0)][2:]
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        rc, _ = run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider", "test/unittests"], env, repo, 60)
        if os.environ.get("MUT_TESTS", "1") == "1" and rc != 0:
            return m, "tests", diff
        env = dict(os.environ, VERIF_REPO=repo, VERIF_JOBS=str(jobs), VERIF_FAILFAST="1", VERIF_HANG_S="30", VERIF_EXT_CACHE="/tmp/extcache")
        lst = CHECKS[rel].split()
        for scale, seed in (("0.15", "1"), ("0.6", "2")):
            env.update(VERIF_SCALE=scale, VERIF_SEED=seed)
            for c in lst:
                rc, out = run(["./check.py", c, "--config", "pure"], env, ROOT_COPY, 600)
                if rc == 1:
                    return m, c + "@" + scale, diff
                if rc != 0 and "never generated" not in out:
                    return m, "HARNESS %s %s: %s" % (c, rc, out[-300:]), diff
        return m, "SURVIVED", diff
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ROOT_COPY, SNAP
    rel, n = sys.argv[1], int(sys.argv[2])
    seed, workers = int(sys.argv[3]), int(sys.argv[4])
    lo, hi = (int(sys.argv[6]), int(sys.argv[7])) if len(sys.argv) > 7 else (0, 10 ** 9)
    ROOT_COPY = tempfile.mkdtemp(prefix="mutroot-", dir="/tmp")
    for x in ("check.py", "vlib", "props", "known_findings.json"):
        s = os.path.join(ROOT, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(ROOT_COPY, x))
    SNAP = os.path.join(ROOT_COPY, "snap")
    os.mkdir(SNAP)
    subprocess.run("git -C %s archive HEAD | tar x -C %s" % (os.environ.get("MUT_SRC", "/repo"), SNAP), shell=True, check=True)
    src = open(os.path.join(SNAP, "pyparticleest", rel), newline="").read()
    ms = [m for m in mutants(src) if lo <= m[1] <= hi]
    random.Random(seed).shuffle(ms)
    out = open(sys.argv[5], "a")
    out.write("== %s: %d of %d mutants\n" % (rel, min(n, len(ms)), len(ms)))
    stat = {}
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for m, r, diff in ex.map(lambda m: one(rel, m, 2), ms[:n]):
            key = r.split("@")[0].split(":")[0]
            stat[key] = stat.get(key, 0) + 1
            if r == "SURVIVED" or r.startswith("HARNESS"):
                out.write("%s line %d (%s) %s\n    %s\n" % (r, m[1], m[0], rel, "\n    ".join(diff)))
                out.flush()
    out.write("%s: %s\n" % (rel, stat))
    out.close()
    shutil.rmtree(ROOT_COPY, ignore_errors=True)


main()
