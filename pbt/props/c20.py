"""C20: the command-line program: a deck in, the solution of that deck out."""
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import boot, gen, ref, sim
from pbt.core import Discard, Prop, Violation, close, fail, require, same

import dg1d.deck as deckmod
import dg1d.dg as dgmod
import dg1d.limiting as limiting
import dg1d.rk as rk
import dg1d.solution as solution

PROP = Prop("C20")
PROP.assumptions = [
    "Run as the documentation says: one deck per directory, at least two outputs.",
    "Reference runs are compared for the classical third- and fourth-order schemes; runs whose sensor decisions come "
    "within 1e-7 (1e-4 with the iterative Godunov solver) of a threshold, or that amplify a perturbation of 1e-12 "
    "beyond 1e-6 (limited high orders), are skipped.",
]

MAIN = os.path.join(boot.REPO, "dg1d", "main.py")
_WORK = {}


def workspace(plain=False):
    """A private directory: inside a git work tree of its own, or outside of any."""
    pid = os.getpid()
    if pid not in _WORK:
        top = tempfile.mkdtemp(prefix="cli", dir=os.environ.get("PBT_SCRATCH"))
        d = os.path.join(top, "versioned")
        env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")
        subprocess.run(["git", "init", "-q", d], check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["git", "-C", d, "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-q", "--allow-empty",
                        "-m", "x"], check=True, env=env, stdout=subprocess.DEVNULL)
        os.mkdir(os.path.join(top, "plain"))
        _WORK[pid] = top
    return tempfile.mkdtemp(prefix="run", dir=os.path.join(_WORK[pid], "plain" if plain else "versioned"))


def program(cwd, *args, limit=120):
    env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null",
               GIT_CEILING_DIRECTORIES=os.path.realpath(_WORK[os.getpid()]))
    for k in ("GIT_DIR", "GIT_WORK_TREE"):
        env.pop(k, None)
    try:
        return subprocess.run([sys.executable, "-B", "-W", "ignore", MAIN] + list(args), cwd=cwd, env=env,
                              stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              universal_newlines=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Violation("the program does not finish within %d s" % limit)


HEADS = [("PDE system", "system"), ("RK scheme", "rk"), ("riemann solver", "riemann"), ("initial condition", "line"),
         ("number of outputs", "nout"), ("final time", "tf"), ("Courant-Friedrichs-Lewy condition", "cfl"),
         ("order", "p"), ("limiting", "limiter"), ("enhancement", "enhline"), ("sensor thresholds", "thrline")]


@st.composite
def run_case(draw, rks=None):
    name = draw(st.sampled_from(['sinewave', 'ictest', 'entrpyw', 'acsticw', 'simplew', 'shuoshe', 'scktube', 'scktube']))
    p = draw(st.integers(0, 4))
    n = draw(st.integers(2, 14))
    size = draw(st.integers(0, 15))
    if size == 15:
        p, n = min(p, 1), draw(st.sampled_from([40, 63, 64, 99, 100, 127, 128]))
    elif size == 14:
        p, n = draw(st.integers(5, 8)), min(n, 4)
    if name == 'scktube':
        line = "scktube %d %r" % (n, draw(st.integers(-60, 60)) / 100.0)
        for _ in range(2):
            line += " %r %r %r" % (draw(st.integers(20, 300)) / 100.0, draw(st.integers(-100, 100)) / 100.0,
                                   draw(st.integers(20, 400)) / 100.0)
    else:
        line = "%s %d" % (name, n)
    c = {"line": line, "p": p, "n": n, "system": ref.ic_spec(line + (' 0 1 0 1 1 0 1' if name == 'x' else ''))[4]}
    c["rk"] = draw(st.sampled_from(rks or ['rk3', 'rk4', 'low_storage_rk4', '']))
    c["riemann"] = draw(st.sampled_from(gen.RIEMANNS))
    c["enh"] = draw(gen.modes_subset(p, 2)) if draw(st.integers(0, 3)) == 0 else []
    sens = draw(st.integers(0, 2))
    c["thr"] = [draw(st.sampled_from([0.005, 0.02, 0.08])) for _ in range(2)] if sens else []
    c["limiter"] = 'adaptive_hr' if sens == 2 else ''
    c["cfl"] = draw(st.sampled_from([0.1, 0.2, 0.3]))
    c["nout"] = draw(st.integers(2, 5))
    c["steps"] = draw(st.integers(5, 250)) / 10.0
    c["order"] = list(draw(st.permutations(range(len(HEADS)))))
    c["omit"] = draw(st.booleans())
    c["plain"] = draw(st.booleans())            # outside of any git work tree
    c["deck"] = draw(st.sampled_from(['', '', 'decks/my case.inp', '../%s.txt']))      # where the deck is kept
    return c


def reference(c, margin=1e-7):
    """(model, reference initial state, final time, list of outputs); Discard outside the domain."""
    u, dx, bc, g, system = ref.ic_cells(c["line"], c["p"])
    m = ref.Model(system, c["p"], dx, bc, g, c["riemann"], c["enh"] or None, c["thr"] or None, bool(c["limiter"]))
    case = dict(c, bc=bc, g=g, dx=dx)
    with np.errstate(all='ignore'):
        try:
            tf = float('%.9g' % (c["steps"] * m.dt(u, c["cfl"])))
            start = m.limit(u)
            outs = m.run(start, tf, c["cfl"], c["nout"], ref.TABLEAUX[c["rk"]], max_steps=60) if c["rk"] in ref.TABLEAUX else None
        except (ArithmeticError, ValueError):
            raise Discard()
    if outs:
        for _, _, s in outs:
            if not np.all(np.isfinite(s)) or np.abs(s).max() > 1e3:
                raise Discard()
            if system == 'euler':
                q, case2 = s, dict(case, enh=c["enh"])
                if not gen.admissible(q, case2, 0.02):
                    raise Discard()
            if c["thr"]:
                m.sensors(s)
        if c["thr"] and m.margin < (1e-4 if c["riemann"] == 'godunov' else margin):
            raise Discard()
    case["sens"] = 0.0
    case["flags"] = m.out_flags if outs else None
    if outs and c["limiter"]:
        # conditioning: limited high-order runs amplify rounding; measure by how much
        noise = np.random.RandomState(7).standard_normal(u.shape)
        with np.errstate(all='ignore'):
            try:
                other = m.run(m.limit(u * (1 + 1e-12 * noise)), tf, c["cfl"], c["nout"], ref.TABLEAUX[c["rk"]], max_steps=60)
            except (ArithmeticError, ValueError):
                raise Discard()
        for a, b in zip(outs, other):
            sc = np.abs(a[2]).max(axis=(0, 2)) + 1e-6 * np.abs(a[2]).max() + 1e-300
            case["sens"] = max(case["sens"], float(np.max(np.abs(a[2] - b[2]) / sc[None, :, None]) / 4.0 ** c["p"]))
        if not case["sens"] < (1e-10 if c["riemann"] == 'godunov' else 1e-6):
            raise Discard()
    return m, case, tf, outs


def write_deck(c, tf, path):
    vals = {"system": c["system"], "rk": c["rk"], "riemann": c["riemann"], "line": c["line"], "nout": str(c["nout"]),
            "tf": repr(tf), "cfl": repr(c["cfl"]), "p": str(c["p"]), "limiter": c["limiter"],
            "enhline": sim.enh_str(c["enh"]), "thrline": ' '.join(map(repr, c["thr"]))}
    default = {"system": "advection", "rk": "", "riemann": "roe", "nout": "10", "p": "1", "limiter": "", "enhline": "",
               "thrline": "", "line": None, "tf": "1", "cfl": "0.5"}
    with open(path, "w") as f:
        for i in c["order"]:
            head, key = HEADS[i]
            if c["omit"] and vals[key] == default[key]:
                continue
            f.write("#%s\n%s\n" % (head, vals[key]))


def read_all(c, d):
    old = os.getcwd()
    os.chdir(d)
    try:
        outs = [sim.read_output(c, k) for k in range(c["nout"])]
        sens = []
        for k in range(c["nout"]):
            name = "sensor%010d.dat" % k
            require(os.path.isfile(name) == bool(c["thr"]), "sensor files %s" % ("missing" if c["thr"] else "without sensors"))
            if c["thr"]:
                a = np.atleast_2d(np.genfromtxt(name, delimiter=',', filling_values=0))
                sens.append(a[:, 1])
        want = c["nout"] * (len(sim.fields_of(c["system"])) + bool(c["thr"]))
        have = [f for f in os.listdir('.') if f.endswith('.dat')]
        require(len(have) == want, lambda: "%d data files, expected %d" % (len(have), want))
        return outs, sens
    finally:
        os.chdir(old)


def compare(c, got, want, tol, what):
    for k in range(c["nout"]):
        sc = np.abs(want[k][-1]).max(axis=(0, 2)) + 1e-6 * np.abs(want[k][-1]).max() + 1e-300
        close(got[k][5], want[k][-1], tol, "%s, output %d" % (what, k), scale=sc[None, :, None] * 4.0 ** c["p"])


@PROP.check("program_vs_reference", run_case(), quick=280, thorough=6000, shards=8,
            rule="non-trivial: at least three steps and the solution changed")
def program_vs_reference(c, ctx):
    """Every output of the program equals that of an independent implementation of the method."""
    m, case, tf, outs = reference(c)
    d = workspace(c.get("plain"))
    try:
        where = (c.get("deck") or "deck.inp").replace('%s', os.path.basename(d))
        os.makedirs(os.path.dirname(os.path.join(d, where)), exist_ok=True)
        write_deck(c, tf, os.path.join(d, where))
        r = program(d, *(["-d", where] if c.get("deck") else []))
        require(r.returncode == 0, lambda: "exit code %d on a valid deck: %s" % (r.returncode, r.stderr[-300:]))
        got, sens = read_all(c, d)
        for k, o in enumerate(outs):
            require(abs(got[k][1] - o[0]) <= 1e-13 * (1 + tf), lambda: "output %d at t=%.17g, expected %.17g" % (k, got[k][1], o[0]))
            require((got[k][2], got[k][3]) == (case["bc"], case["bc"]), "boundary conditions in the header")
        compare(case, got, outs, max(1e-7, 1e4 * case["sens"]) if c["riemann"] == 'godunov' else max(1e-9, 10 * case["sens"]), "program against reference")
        for k, s in enumerate(sens):
            if k == 0 and not c["limiter"]:
                continue           # nothing has been sensed yet
            if c["limiter"]:
                # flags as of the last limiting, made before that limiting
                same(s.astype(int), case["flags"][k], "sensor flags of output %d" % k)
        # the final state is reproducible byte for byte
        first = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d) if f.endswith('.dat')}
        if c["order"][0] == 0:
            r = program(d, "--deck", os.path.join(d, where))
            require(r.returncode == 0, "second run of the same deck fails")
            again = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d) if f.endswith('.dat')}
            require(first == again, "two runs of the same deck differ")
            ctx.label("repeated")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["line"].split()[0], c["system"], c["rk"] or 'default', c["riemann"], "p%d" % c["p"],
              "enh%d" % len(c["enh"]), "limited" if c["limiter"] else ("sensing" if c["thr"] else "plain"))
    ctx.nontrivial(outs[-1][1] >= 3 and not np.allclose(outs[0][2], outs[-1][2], atol=1e-9))


@PROP.check("program_vs_library", run_case(gen.RKS), quick=120, thorough=3000, shards=5,
            rule="non-trivial: at least one step")
def program_vs_library(c, ctx):
    """The program does what the documented library calls do, for every time scheme."""
    if c["rk"] in ('rk10', 'rk12', 'rk14'):
        c = dict(c, steps=min(c["steps"], 6.0))
    m, case, tf, _ = reference(dict(c, rk='rk3'), 0.0)
    d = workspace(c.get("plain"))
    old = os.getcwd()
    try:
        write_deck(c, tf, os.path.join(d, "case.txt"))
        os.mkdir(os.path.join(d, "lib"))
        os.chdir(os.path.join(d, "lib"))
        stopped = False
        try:
            s = solution.Solution(c["line"], c["system"], c["p"], c["riemann"], sim.enh_str(c["enh"]), list(c["thr"]))
            s.apply_bc()
            solver = dgmod.DG(s)
            lim = limiting.Limiter(c["limiter"], s)
            lim.limit(s)
            rk.integrate(s, sim.deck_of(case, c["rk"], tf, c["cfl"], c["nout"], c["limiter"]), solver, lim)
        except SystemExit:
            stopped = True
        r = program(d, "-d", "case.txt")
        if stopped:
            require(r.returncode != 0, "the library stops with an error, the program reports success")
            ctx.label("stopped")
            return
        require(r.returncode == 0, lambda: "exit code %d on a valid deck: %s" % (r.returncode, r.stderr[-300:]))
        lib, lsens = read_all(c, '.')
        got, sens = read_all(c, d)
        for k in range(c["nout"]):
            require(got[k][:4] == lib[k][:4], lambda: "output %d: header %r, library %r" % (k, got[k][:4], lib[k][:4]))
            close(got[k][5], lib[k][5], 1e-13, "program against library, output %d" % k,
                  scale=np.abs(lib[k][5]).max() + 1e-300)
            if sens:
                require(np.array_equal(sens[k], lsens[k]), "sensor output %d differs from the library" % k)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["line"].split()[0], c["rk"], "p%d" % c["p"])
    ctx.nontrivial(True)


@st.composite
def bad_case(draw):
    c = draw(run_case())
    c["how"] = draw(st.sampled_from(['missing', 'params', 'blowup', 'number', 'truncated']))
    c["k"] = draw(st.integers(0, 9))
    return c


@PROP.check("bad_input", bad_case(), quick=60, thorough=600, shards=2,
            rule="non-trivial: every case (the run cannot produce a valid solution)")
def bad_input(c, ctx):
    """A deck that cannot be run ends with a failure status and never with later outputs."""
    d = workspace(c.get("plain"))
    try:
        path = os.path.join(d, "deck.inp")
        c = dict(c, omit=False, limiter='', thr=[], enh=[], cfl=0.2)
        if c["how"] == 'missing':
            path = os.path.join(d, "other.inp")
        if c["how"] == 'params':
            full = "scktube 8 0.0 1.0 0.0 1.0 0.125 0.0 0.1".split()
            n = c["k"] % 8
            line = ' '.join(full[:2 + n - (n == 7)] if n < 7 else full + ['3.0'])
            c = dict(c, line=line, system='euler')
            if len(line.split()) == len(full):
                raise Discard()
        if c["how"] == 'blowup':
            c = dict(c, line="scktube 8 0.0 1.0 0.0 -%r 1.0 0.0 1.0" % (1.0 + c["k"]), system='euler', p=0)
        write_deck(c, 0.5, path)
        text = open(path).read()
        if c["how"] == 'number':
            head = ["number of outputs", "final time", "order", "Courant-Friedrichs-Lewy condition"][c["k"] % 4]
            lines = text.split('\n')
            lines[lines.index('#' + head) + 1] = 'many'
            open(path, 'w').write('\n'.join(lines))
        if c["how"] == 'truncated':
            lines = text.split('\n')[:-1]        # the last value may be blank
            i = lines.index('#final time')
            lines = lines[:i] + lines[i + 2:] + ['#final time']
            open(path, 'w').write('\n'.join(lines) + '\n')
        r = program(d, "-d", "deck.inp")
        require(r.returncode != 0, lambda: "exit code 0 for an unusable deck (%s)" % c["how"])
        late = [f for f in os.listdir(d) if f.endswith('.dat') and not f.endswith('0000000000.dat')]
        require(not late, lambda: "an unusable deck (%s) produced %r" % (c["how"], late[:3]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["how"])
    ctx.nontrivial(True)


DOCUMENTED = ['123_problem', 'blast_wave', 'sodtube', 'sodtube_modified', 'stationary_contact', 'strong_shocks']


@PROP.enumerate("documented_problems", lambda tier: [{"name": n} for n in DOCUMENTED],
                rule="non-trivial: every case (the documented decks with their published results)")
def documented_problems(c, ctx):
    """The regression decks still give their recorded results."""
    src = os.path.join(boot.REPO, "regressions", c["name"])
    d = workspace()
    try:
        shutil.copy(os.path.join(src, "deck.inp"), d)
        r = program(d)
        require(r.returncode == 0, lambda: "exit code %d: %s" % (r.returncode, r.stderr[-300:]))
        for f in ('rho', 'rhou', 'E'):
            got = np.loadtxt(os.path.join(d, f + '0000000001.dat'), delimiter=',')
            want = np.loadtxt(os.path.join(src, f + '0000000001.gold'), delimiter=',')
            close(got, want, 1e-7, "%s of %s" % (f, c["name"]), scale=np.abs(want).max())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label(c["name"])
    ctx.nontrivial(True)
