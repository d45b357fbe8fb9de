#!/usr/bin/env python3
"""Runs one check: builds the harness together with /repo's current working tree (through a go build
overlay, nothing is written to /repo), runs its parts in parallel shards, confirms what they report by
replaying it, and writes evidence/<id>.json.
usage: check.py ID [--tier quick|thorough] [--replay CASE] [--keep DIR]
exit 0: held on everything explored; 1: VIOLATION; 2: the check could not be run."""
import sys, os, json, glob, shutil, subprocess, tempfile, time, signal, threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
GOROOT = '/opt/veriftools/go1.27.3'
T0 = time.time()


def goenv():
    e = dict(os.environ)
    e['PATH'] = GOROOT + '/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
    for k in ('J8ACFG_YML', 'LOGLEVEL', 'LOGCOLOR', 'VERSION', 'TZ', 'OS', 'HTTP_PROXY', 'http_proxy', 'HTTPS_PROXY', 'https_proxy', 'SSL_CERT_FILE', 'SSL_CERT_DIR'):
        e.pop(k, None)
    return e


def sh(cmd, cwd, log, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        log.append(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-6000:])
    return p.returncode == 0


BUILT = {}


def build(kind, tmp):
    if kind not in BUILT:
        BUILT[kind] = build1(kind, tmp)
    return BUILT[kind]


def build1(kind, tmp):
    """returns (binary, instrumentation level)"""
    log = []
    levels = [3, 2, 1, 0] if kind == 'inst' else [0]
    if kind == 'inst':
        if not sh(['go', 'build', '-o', tmp + '/instr', 'main.go'], VERIF + '/tools/instr', log):
            levels = [0]
    for lv in levels:
        rep = {f: '' for f in glob.glob(REPO + '/*_test.go')}
        for f in sorted(glob.glob(VERIF + '/harness/*')):
            b = os.path.basename(f)
            if b.startswith('plain_') and lv > 0 or b.startswith('inst_') and lv == 0:
                continue
            if b.startswith('vs_') or b.startswith('plain_'):
                rep[REPO + '/zz_' + b] = f
            elif b.endswith('.go'):
                rep[REPO + '/zz_' + b[:-3] + '_test.go'] = f
        if lv > 0:
            out = '%s/inst%d' % (tmp, lv)
            os.makedirs(out)
            if not sh([tmp + '/instr', '-level', str(lv), REPO, out], tmp, log):
                continue
            for f in glob.glob(out + '/*.go'):
                rep[REPO + '/' + os.path.basename(f)] = f
        ov = '%s/overlay-%s-%d.json' % (tmp, kind, lv)
        json.dump({'Replace': rep}, open(ov, 'w'))
        binary = '%s/%s-%d.bin' % (tmp, kind, lv)
        if sh(['go', 'test', '-vet=off', '-overlay', ov, '-c', '-o', binary, '.'], REPO, log):
            return binary, lv
    sys.stderr.write('\n'.join(log[-2:]) + '\n')
    return None, None


FAST = """package j8a

import "time"

// zzFast compresses minutes, hours and days, shorter times stay as they are
func zzFast(d time.Duration) time.Duration {
	if d >= time.Minute {
		return d/1000000 + 1
	}
	return d
}
func zzfSleep(d time.Duration)                                { time.Sleep(zzFast(d)) }
func zzfAfter(d time.Duration) <-chan time.Time               { return time.After(zzFast(d)) }
func zzfTick(d time.Duration) <-chan time.Time                { return time.Tick(zzFast(d)) }
func zzfNewTimer(d time.Duration) *time.Timer                 { return time.NewTimer(zzFast(d)) }
func zzfNewTicker(d time.Duration) *time.Ticker               { return time.NewTicker(zzFast(d)) }
func zzfAfterFunc(d time.Duration, f func()) *time.Timer      { return time.AfterFunc(zzFast(d), f) }
"""


def build_fast(tmp):
    """the server with long sleeps and timers compressed; without it the check goes on with real time"""
    import re
    if os.path.exists(tmp + '/j8a.bin.fast'):
        return
    d = tmp + '/fast'
    os.makedirs(d, exist_ok=True)
    rep = {}
    for f in glob.glob(REPO + '/*.go'):
        if f.endswith('_test.go'):
            continue
        s = open(f).read()
        t, n = re.subn(r'\btime\.(Sleep|After|Tick|NewTimer|NewTicker|AfterFunc)\(', r'zzf\1(', s)
        if n:
            t += '\nvar _ = time.Now\n'
            open(d + '/' + os.path.basename(f), 'w').write(t)
            rep[f] = d + '/' + os.path.basename(f)
    open(d + '/zz_fast.go', 'w').write(FAST)
    rep[REPO + '/zz_fast.go'] = d + '/zz_fast.go'
    json.dump({'Replace': rep}, open(tmp + '/fast.json', 'w'))
    log = []
    if not sh(['go', 'build', '-overlay', tmp + '/fast.json', '-o', tmp + '/j8a.bin.fast', './cmd/j8a'], REPO, log):
        sys.stderr.write('\n'.join(log))


def child_env(part, check, tier, tmp, tag):
    e = goenv()
    e.update(VERIF_CHECK=part['name'], VERIF_TIER=tier, VERIF_OUT='%s/out-%s.json' % (tmp, tag),
             VERIF_TMP=tmp, VERIF_DIR=VERIF, GOMAXPROCS=str(part.get('procs', 1)), GOTRACEBACK='all',
             VERIF_J8A=tmp + '/j8a.bin')
    e.pop('VERIF_REPLAY', None)
    return e


def start(binary, env, tmp, tag):
    wd = '%s/wd-%s' % (tmp, tag)
    os.makedirs(wd, exist_ok=True)
    log = open('%s/log-%s' % (tmp, tag), 'wb')
    for f in (env['VERIF_OUT'], env['VERIF_OUT'] + '.cur'):
        if os.path.exists(f):
            os.unlink(f)
    p = subprocess.Popen([binary, '-test.run', '^TestVerif$', '-test.timeout', '0'], cwd=wd, env=env, stdout=log, stderr=log, start_new_session=True)
    return p


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def cur_case(path):
    try:
        b = open(path + '.cur', 'rb').read()
        return b[6:6 + int(b[:6])].decode(errors='replace')
    except Exception:
        return None


def tail(path, n=6000):
    try:
        s = open(path, 'rb').read().decode(errors='replace')
    except Exception:
        return ''
    for mark in ('panic:', 'fatal error:', 'unexpected fault'):
        i = s.find(mark)
        if i >= 0:
            return s[i:i + n]
    return s[-n:]


def replay_once(binary, part, check, tier, tmp, case, timeout):
    """returns (verdict, detail): verdict in violation, ok, crash, hang"""
    tag = 'replay-%d-%d' % (os.getpid(), threading.get_ident() % 100000)
    env = child_env(part, check, tier, tmp, tag)
    env.update(VERIF_REPLAY=case, VERIF_BUDGET=str(timeout), VERIF_SHARD='0', VERIF_SHARDS='1')
    p = start(binary, env, tmp, tag)
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGQUIT)
        time.sleep(1)
        stop(p)
        return 'hang', tail('%s/log-%s' % (tmp, tag))
    stop(p)
    r = load(env['VERIF_OUT'])
    if r is None:
        return 'crash', tail('%s/log-%s' % (tmp, tag))
    if r.get('Violations'):
        return 'violation', r['Violations'][0]['Detail']
    if not r.get('Evaluations'):
        return 'missing', ''
    return 'ok', ''


def run_part(part, check, tier, tmp, budget):
    kind = part.get('build', 'plain')
    binary, lv = build(kind, tmp)
    if binary is None:
        return None
    if part.get('needs_main'):
        log = []
        if not os.path.exists(tmp + '/j8a.bin') and not sh(['go', 'build', '-o', tmp + '/j8a.bin', './cmd/j8a'], REPO, log):
            sys.stderr.write('\n'.join(log))
            return None
    if part.get('fast'):
        build_fast(tmp)
    n = part.get('shards', 8)
    todo = list(range(n))
    attempts = {i: 0 for i in todo}
    reports, crashes = [], []
    running = {}
    hard = time.time() + budget + 45
    while todo or running:
        while todo:
            i = todo.pop(0)
            attempts[i] += 1
            env = child_env(part, check, tier, tmp, '%s-%d' % (part['name'], i))
            env.update(VERIF_SHARD=str(i), VERIF_SHARDS=str(n), VERIF_BUDGET=str(int(budget)))
            running[i] = (start(binary, env, tmp, '%s-%d' % (part['name'], i)), env)
        time.sleep(0.05)
        for i, (p, env) in list(running.items()):
            over = time.time() > hard
            if p.poll() is None and not over:
                continue
            if p.poll() is None:
                p.send_signal(signal.SIGQUIT)
                time.sleep(1)
            code = p.poll()
            stop(p)
            del running[i]
            r = load(env['VERIF_OUT'])
            log = '%s/log-%s-%d' % (tmp, part['name'], i)
            if r is not None:
                r['shard'] = i
                reports.append(r)
                continue
            crashes.append({'case': cur_case(env['VERIF_OUT']), 'log': tail(log), 'hang': over, 'shard': i})
            if attempts[i] < 2 and time.time() < hard - budget / 2 - 45 and not over:
                todo.append(i)
    return {'part': part, 'binary': binary, 'level': lv, 'reports': reports, 'crashes': crashes}


def rerun_shard(res, check, tier, tmp, i, budget, n):
    """the whole history of a shard again: the violations it reports"""
    part = res['part']
    tag = 'again-%s-%d-%d' % (part['name'], i, n)
    env = child_env(part, check, tier, tmp, tag)
    env.update(VERIF_SHARD=str(i), VERIF_SHARDS=str(part.get('shards', 8)), VERIF_BUDGET=str(int(budget)))
    p = start(res['binary'], env, tmp, tag)
    try:
        p.wait(timeout=budget + 45)
    except subprocess.TimeoutExpired:
        pass
    stop(p)
    r = load(env['VERIF_OUT'])
    return (r or {}).get('Violations') or []


def history_confirmed(res, check, tier, tmp, budget, known):
    """cases that violate only after what ran before them in their shard: the same shard, run twice more from
    a fresh process, has to report the same case each time (or a crowd of them each time)"""
    def fresh(vs):
        return [v for v in vs if not any(v['Case'] == kc or v['Case'].startswith(kc) for (kc, w) in known)]
    cand = [r for r in res['reports'] if fresh(r.get('Violations') or [])][:4]
    if not cand:
        return None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        again = [list(ex.map(lambda r: fresh(rerun_shard(res, check, tier, tmp, r['shard'], budget, n)), cand)) for n in range(2)]
    for k, r in enumerate(cand):
        runs = [fresh(r['Violations']), again[0][k], again[1][k]]
        same = set(v['Case'] for v in runs[0]) & set(v['Case'] for v in runs[1]) & set(v['Case'] for v in runs[2])
        if same or all(len(set(v['Case'] for v in x)) >= 3 for x in runs):
            v = [v for v in runs[0] if not same or v['Case'] in same][0]
            return v['Case'], v['Detail'], r['shard']
    return None


def known_findings(pid):
    out = []
    try:
        for l in open(VERIF + '/known-findings.txt'):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % pid):
                rest = l[len('known: property=%s ' % pid):]
                if rest.startswith('case="'):
                    case, what = rest[6:].split('" ', 1)
                    out.append((case, what))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    a = sys.argv[2:]
    keep = None
    while a:
        if a[0] == '--tier':
            tier = a[1]
        elif a[0] == '--replay':
            replay = a[1]
        elif a[0] == '--keep':
            keep = a[1]
        a = a[2:]
    check = CHECKS[pid]
    tmp = keep or tempfile.mkdtemp(prefix='j8a-verif-%s-' % pid, dir='/tmp')
    os.makedirs(tmp, exist_ok=True)
    code = 2
    try:
        if replay is not None:
            v = json.load(open(replay)) if os.path.exists(replay) else {'case': replay}
            code = do_replay(pid, check, tier, tmp, v)
        else:
            code = run(pid, check, tier, tmp)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def do_replay(pid, check, tier, tmp, v):
    case = v['case']
    for part in check['parts']:
        if v.get('part', part['name']) != part['name']:
            continue
        binary, _ = build(part.get('build', 'plain'), tmp)
        if part.get('needs_main'):
            sh(['go', 'build', '-o', tmp + '/j8a.bin', './cmd/j8a'], REPO, [])
        if part.get('fast'):
            build_fast(tmp)
        if v.get('kind') == 'history':
            vs = rerun_shard({'part': part, 'binary': binary}, check, tier, tmp, v['shard'], 600, 0)
            for x in vs:
                print('%s: %s' % (x['Case'], x['Detail']))
            return 1 if vs else 0
        what, d = replay_once(binary, part, check, tier, tmp, case, 120)
        if what == 'missing':
            continue
        print('replay %s: %s\n%s' % (case, what, d))
        return 0 if what == 'ok' else 1
    print('no part of %s has this case' % pid)
    return 2


def run(pid, check, tier, tmp):
    total = check.get('budget', {}).get(tier, 75 if tier == 'quick' else 600)
    results = []
    born = time.time()
    weights = sum(p.get('weight', 1) for p in check['parts'])
    for part in check['parts']:
        r = run_part(part, check, tier, tmp, max(part.get('min_budget', 10), total * part.get('weight', 1) / weights))
        if r is None:
            print('check %s: cannot build or run part %s on this tree' % (pid, part['name']))
            return 2
        results.append(r)
    known = known_findings(pid)
    confirmed, unconfirmed, knownhit = [], [], []
    for res in results:
        part = res['part']
        cands = []
        for r in res['reports']:
            for v in r.get('Violations') or []:
                cands.append((v['Case'], v['Detail'], 'violation'))
        for c in res['crashes']:
            cands.append((c['case'], c['log'], 'hang' if c['hang'] else 'crash'))
        cands.sort(key=lambda x: (len(x[0] or ''), x[0] or ''))
        for case, detail, kind in cands:
            k = [w for (kc, w) in known if case is not None and (case == kc or case.startswith(kc))]
            if k:
                if k[0] not in knownhit:
                    knownhit.append(k[0])
                continue
            if confirmed:
                continue
            if len(unconfirmed) > 12 or time.time() - born > 600 + (tier != 'quick') * 150:
                continue
            hits, last = 0, detail
            runs = part.get('replays', 5)
            if case is not None:
                for j in range(runs):
                    if time.time() - born > 760:
                        break
                    v, d = replay_once(res['binary'], part, check, tier, tmp, case, part.get('replay_timeout', 60))
                    if v in ('violation', 'crash', 'hang'):
                        hits += 1
                        if d:
                            last = d
                    if hits >= min(3, runs) or (j + 1 - hits) > runs - min(3, runs):
                        break
            if hits >= 3:
                confirmed.append({'property': pid, 'part': part['name'], 'case': case, 'kind': kind, 'detail': last,
                                  'reproduced': hits, 'replay_cmd': "python3 tools/check.py %s --tier %s --replay %s" % (pid, tier, 'evidence/%s.violation.json' % pid)})
            else:
                unconfirmed.append({'case': case, 'kind': kind, 'detail': last[:3000], 'reproduced': hits})
        if not confirmed and cands and (tier != 'quick' or time.time() - born < 560):
            h = history_confirmed(res, check, tier, tmp, max(10, total * part.get('weight', 1) / weights), known)
            if h:
                confirmed.append({'property': pid, 'part': part['name'], 'case': h[0], 'kind': 'history', 'shard': h[2],
                                  'detail': 'only after the cases that precede it in shard %d: %s' % (h[2], h[1]), 'reproduced': 3,
                                  'replay_cmd': "python3 tools/check.py %s --tier %s --replay %s" % (pid, tier, 'evidence/%s.violation.json' % pid)})
        # the same kind of server crash, hit in independent shards, is one even if no single case repeats it
        crashy = [c for c in res['crashes'] if not c['hang'] and server_frame(c['log'])]
        if not confirmed and len(crashy) >= 2:
            confirmed.append({'property': pid, 'part': part['name'], 'case': crashy[0]['case'], 'kind': 'crash', 'detail': crashy[0]['log'], 'reproduced': len(crashy), 'replay_cmd': ''})
    write_evidence(pid, check, tier, results, confirmed, unconfirmed, knownhit)
    for w in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for u in unconfirmed[:3]:
        print('note: not reproducible, not counted: %s: %s' % (u['case'], u['detail'][:600]))
    if confirmed:
        v = confirmed[0]
        path = '%s/evidence/%s.violation.json' % (VERIF, pid)
        json.dump(v, open(path, 'w'), indent=1)
        print('case: %s\n%s' % (v['case'], v['detail'][:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    try:
        os.unlink('%s/evidence/%s.violation.json' % (VERIF, pid))
    except OSError:
        pass
    broken = [c for res in results for c in res['crashes']]
    done = [r for res in results for r in res['reports']]
    if not done:
        print('check %s: no shard finished: %s' % (pid, str(broken[:1])[:1500]))
        return 2
    ev = json.load(open('%s/evidence/%s.json' % (VERIF, pid)))
    print('%s held: %s' % (pid, {k: v for k, v in ev['coverage'].items() if isinstance(v, (int, bool))}))
    return 0


def server_frame(log):
    """does a crash log name a frame of the server itself, outside of the harness"""
    for l in log.splitlines():
        l = l.strip()
        if l.startswith(REPO + '/') and '/zz_' not in l:
            return True
        b = os.path.basename(l.split(':')[0])
        if b.endswith('.go') and not b.startswith('zz_') and os.path.exists(REPO + '/' + b) and ('/inst' in l):
            return True
    return False


def write_evidence(pid, check, tier, results, confirmed, unconfirmed, knownhit):
    ev, steps, val, mstates = 0, 0, 0, 0
    distinct, states, samples, notes, rules = set(), set(), [], {}, []
    complete = True
    for res in results:
        if res['crashes'] or len(res['reports']) < res['part'].get('shards', 8):
            complete = False
        for r in res['reports']:
            ev += r['Evaluations']
            steps += r['Steps']
            val += r['Validated']
            mstates += r['ModelStates'] if r['shard0'] else 0
            distinct.update(r['DistinctL'] or [])
            states.update(r['StatesL'] or [])
            if len(samples) < 8:
                samples += (r['Samples'] or [])[-3:]
            if r['Rule'] and r['Rule'] not in rules:
                rules.append(r['Rule'])
            complete = complete and r['Complete']
            for k, v in (r['Notes'] or {}).items():
                if k in notes and isinstance(v, (int, float)) and isinstance(notes[k], (int, float)):
                    notes[k] = min(notes[k], v) if k.endswith('_completed') else notes[k] + v
                else:
                    notes[k] = v
        if res['part'].get('build') == 'inst':
            notes['instrumentation_level'] = res['level']
    cov = {'rule': ' // '.join(rules), 'samples': samples[:8] or ['none'], 'exhaustive': bool(complete and not confirmed)}
    if check['level'] == 'model_checking':
        # schedules: states are the distinct end states seen; inputs: every distinct case is a state of the environment
        inst = any(r['part'].get('build') == 'inst' for r in results)
        cov.update(states=(len(states) if inst else len(distinct)) + mstates, transitions=steps, traces_validated_against_impl=val)
        if inst:
            cov['distinct_nontrivial'] = len(distinct)
        else:
            cov['distinct_outcomes'] = len(states)
        if ev != val:
            cov['executions'] = ev
    else:
        cov.update(evaluations=ev, distinct_nontrivial=len(distinct), distinct_outcomes=len(states))
    cov.update(notes)
    out = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': check['level'], 'coverage': cov,
           'assumptions': check.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': len(confirmed)}
    if unconfirmed:
        out['coverage']['unconfirmed'] = unconfirmed
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(out, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)


main()
