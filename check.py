"""One check: python3-vt check.py <property>.

1. the prover: every contract obligation of the property, generated from the current source of /repo, is discharged by
   the solvers (pyvc/, spec/);
2. the falsifier (fals/): a bounded search of the real code with an independent oracle.  It replays failed obligations,
   and stands in, labelled bounded, for what is outside the verifier's reach.

Exit 0: held.  Exit 1: a line VIOLATION property=<id> replay=<path>.  Exit 2: the check itself failed.
"""
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from fals import common as C        # noqa: E402

CODEC = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')


def known():
    """[(kind, property, key, text)] of /verif/known_findings.txt"""
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf8'):
            line = line.strip()
            if line.startswith('finding:'):
                f = line.split(None, 3)
                out.append(('finding', f[1].split('=', 1)[1], f[2].split('=', 1)[1], f[3]))
    except FileNotFoundError:
        pass
    return out


def in_repo(tb):
    fs = traceback.extract_tb(tb)
    return fs and fs[-1].filename.startswith(C.SRC + os.sep)


class Timeout(BaseException):
    pass


def falsify(pid, limit):
    """(violation or None, stats)"""
    st = C.Stats()
    t0 = time.time()
    name = 'codecprops' if pid in CODEC else pid.lower()
    if not os.path.exists(os.path.join(HERE, 'fals', name + '.py')):
        return None, None

    def alarm(sig, frame):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    vio = None
    try:
        mod = importlib.import_module('fals.' + name)
        mod.run(pid, st)
    except C.Violation as v:
        vio = v
    except Timeout:
        tb = sys.exc_info()[2]
        where = [f for f in traceback.extract_tb(tb) if f.filename.startswith(C.SRC)]
        if not where:
            print(f'falsifier did not finish in {limit} s', file=sys.stderr)
        else:
            vio = C.Violation('a call into the package does not return', traceback.format_exc()[-3000:])
    except (Exception, RecursionError):
        tb = sys.exc_info()[2]
        if not in_repo(tb):
            raise
        vio = C.Violation('a call of the package on a valid input raises an unexpected exception', traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    st.wall = time.time() - t0
    return vio, st


def replay_file(pid, body):
    d = os.path.join(HERE, 'out')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}.replay.json')
    with open(p, 'w', encoding='utf8') as f:
        json.dump(body, f, indent=1, default=repr)
    return p


def main():
    pid = sys.argv[1]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    os.environ.setdefault('PYVC_REPO', C.REPO)
    try:
        from spec import registry
        proof = registry.prove(pid, tier)
    except ImportError as e:
        if 'spec' not in str(e):
            raise
        proof = None
    findings = [k for k in known() if k[1] == pid]
    vio, st = falsify(pid, 700 if tier == 'thorough' else 300)
    status, lines = 0, []
    obl = proof['obligations'] if proof else []
    failed = [o for o in obl if o['status'] == 'failed']
    undecided = [o for o in obl if o['status'] == 'undecided']
    done = [o for o in obl if o['status'] == 'discharged']
    for k in findings:
        lines.append(f'KNOWN-FINDING: property={pid} {k[3]}')
    if vio is not None and getattr(vio, 'key', None) and any(k[2] == vio.key for k in findings):
        vio = None
    if vio is not None:
        p = replay_file(pid, dict(property=pid, what=vio.what, input=vio.inp, code=vio.code, seed=C.seed(), tier=tier,
                                  failed_obligations=failed, rerun=f'VERIF_SEED={C.seed()} VERIF_TIER={tier} python3-vt check.py {pid}'))
        lines.append(vio.what[:400].replace('\n', ' '))
        for o in failed:
            lines.append(f'failed obligation: {o["name"]}')
        lines.append(f'VIOLATION property={pid} replay={p}')
        status = 1
    elif failed:
        p = replay_file(pid, dict(property=pid, what='obligation no longer holds', failed_obligations=failed, seed=C.seed(), tier=tier,
                                  rerun=f'VERIF_SEED={C.seed()} VERIF_TIER={tier} python3-vt check.py {pid}'))
        for o in failed:
            lines.append(f'failed obligation: {o["name"]}: {str(o.get("detail", ""))[:300]}')
        lines.append(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        status = 1
    for o in undecided:
        lines.append(f'undecided (bounded stand-in only): {o["name"]}: {str(o.get("detail", ""))[:200]}')
    cov = {}
    if proof:
        cov.update(obligations=len(obl), discharged=len(done), undecided=[o['name'] for o in undecided][:60],
                   checker_cmd=f'python3-vt check.py {pid}', trusted_base=proof['trusted'],
                   functions_under_contract=proof['functions'], backends=proof['backends'], solver_s=round(proof['solver_s'], 2),
                   prover_wall_s=round(proof['wall_s'], 2), vacuity_checks=proof.get('vacuity', 0),
                   obligation_names=[o['name'] for o in done][:150])
    if st is not None:
        cov.update(evaluations=st.evaluations, distinct_nontrivial=len(st.distinct),
                   rule='bounded stand-in and falsifier, not counted as proved: random and boundary cases from VERIF_SEED run on the real '
                        'code and compared with an independent oracle; distinct by case structure',
                   samples=st.samples or ['(no sample kept)'])
    level = proof['level'] if proof else 'exploration'
    ev = dict(property=pid, tier=tier, seed=C.seed(), level=level, coverage=cov, assumptions=proof['assumptions'] if proof else [],
              wall_s=round(time.time() - t0, 2), violations=status)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f'{pid}: obligations {len(obl)}, discharged {len(done)}, undecided {len(undecided)}, failed {len(failed)}; '
          f'bounded cases {st.evaluations if st else 0}; {ev["wall_s"]} s')
    for line in lines:
        print(line)
    sys.exit(status)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:       # noqa
        traceback.print_exc()
        sys.exit(2)
