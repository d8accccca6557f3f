#!/usr/bin/env python3
"""run.py <property> [quick|thorough] - the check of one property;  run.py replay <file> - one recorded violation again.

Exit status: 0 - held on everything explored; 1 - violated (VIOLATION lines say where); 3 - the machinery failed."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'tools'), HERE]
import drive

PARSER = ['P%02d' % i for i in range(1, 19)]
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
MAXSHOWN = 10


def findings(pid):
    """listed findings: lines 'KNOWN-FINDING: property=<id> key=<key> <what fails>'"""
    res = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            w = l.split()
            if len(w) > 2 and w[0] == 'KNOWN-FINDING:' and w[1] == 'property=' + pid and w[2].startswith('key='):
                res[w[2][4:]] = l.strip()
    return res


class Result:
    """what a check found: violations (key, text, replay data) and what it covered"""
    def __init__(self):
        self.bad, self.coverage, self.assumptions = [], {}, []


def job_json(j):
    return {'id': j.id, 'docs': j.docs, 'ops': j.ops, 'multi': j.multi, 'pfx': j.pfx}


def parser_check(pid, tier, seed):
    import gens
    drive.build(['cdump'])
    r = Result()
    js = gens.jobs(pid, tier, seed)
    o = drive.check(js)
    again = {}
    for m in o.mism:
        again.setdefault(id(m[0]), m)
    worst = sorted(again.values(), key=lambda m: sum(map(len, m[0].docs)))[:MAXSHOWN]
    for m in worst:      # only what repeats is reported
        j = m[0]
        j2 = drive.Job(j.id, j.docs, j.ops, j.multi, j.pfx)
        o2 = drive.check([j2])
        if not o2.mism:
            raise drive.ToolError('mismatch of %s does not repeat' % j.id)
        m2 = o2.mism[0]
        r.bad.append(('%s/%s' % (m2[1], j.id.split('-')[2]), drive.explain(m2)[:1500], job_json(j)))
    if len(again) > len(worst):
        print('%d more runs disagree with the specification' % (len(again) - len(worst)))
    acc = [j for j in js if j.seen != None and isinstance(j.seen, list) and j.seen and j.seen[-1] is True]
    kinds = {}
    for j in js:
        k = j.id.split('-')[2]
        a = kinds.setdefault(k, [0, 0])
        a[1] += 1
        a[0] += isinstance(j.seen, list) and bool(j.seen) and j.seen[-1] is True
    r.coverage = {'states': o.distinct, 'transitions': o.states, 'traces_validated_against_impl': o.traces,
                  'accepted_runs': len(acc), 'runs_beyond_the_lexical_model': o.skipped,
                  'runs_by_kind_accepted_of_all': {k: '%d of %d' % tuple(v) for k, v in sorted(kinds.items())},
                  'samples': [{'calls': j.ops, 'documents': [d[:400] for d in j.docs], 'observed': j.seen} for j in (acc[len(acc) // 2:][:2] + js[:1])]}
    if pid == 'P01':
        r.coverage['explored_call_histories'] = dict(gens.HISTORY)
    r.assumptions = ['XML is read as libxml2 reads it (the lexical layer, tools/lex.py, mirrors it for ASCII documents)',
                     'the projection harness (harness/) reports the public API of the parser faithfully']
    return r


def known_inputs(pid):
    """inputs of listed findings (checks/known): what goes wrong with them has the name of the file in its key"""
    res = []
    slug = lambda key, what: key + '/' + what.split(':')[0].split(' ', 1)[1].replace(' ', '-')
    top = os.path.join(HERE, 'known')
    for n in sorted(os.listdir(top)):
        d = json.load(open(os.path.join(top, n)))
        if d['property'] != pid:
            continue
        key = 'known/' + n[:-5]
        if d['kind'] == 'history':
            import genhist
            step = {'do': 'run', 'in': 0, 'opt': 0, 'dir': 'F', 'style': 'args', 'voice': 'quiet', 'x': ''}
            h = genhist.Hist(key, d['app'], [d['docs']], [{}], [step], [pid], 1)
            res += [(slug(key, what), '%s: %s' % (what, x[:800]), h.case()) for _, what, x in genhist.validate([h]).bad]
        else:
            import genrun
            drive.build(['commsdsl2comms', 'commsdsl2' + d['app']])
            r = genrun.Run(key, d['docs'], {}, [pid], d['app'])
            res += [(slug(key, what), '%s: %s' % (what, x[:800]), r.case()) for _, what, x in genrun.validate([r]).bad]
    return res


def main():
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2]))
        pid = d['property']
        if pid in PARSER and 'docs' in d['case']:
            drive.build(['cdump'])
            c = d['case']
            o = drive.check([drive.Job(c['id'], c['docs'], c['ops'], c['multi'], c['pfx'])])
            for m in o.mism:
                print(drive.explain(m))
            return 1 if o.mism else 0
        if d['case'].get('kind') == 'history':
            import genhist
            return genhist.replay(d)
        import genrun
        return genrun.replay(d)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = drive.SEED
    t = time.time()
    if pid in PARSER:
        r = parser_check(pid, tier, seed)
        if pid == 'P16':
            import genhist
            g = genhist.check(pid, tier, seed)
            r.bad += g.bad
            for k, v in g.coverage.items():
                r.coverage[k] = r.coverage[k] + v if k in r.coverage else v
    elif pid in ('P20', 'P22'):
        import genhist
        r = genhist.check(pid, tier, seed)
    else:
        import genrun
        r = genrun.check(pid, tier, seed)
    r.bad += known_inputs(pid)
    known = findings(pid)
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    seen, new = set(), 0
    for key, text, case in r.bad:
        if key in known:
            seen.add(key)
            continue
        new += 1
        path = os.path.join(EVIDENCE, 'replay', '%s-%d.json' % (pid, new))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'what': key, 'explanation': text, 'case': case}, f, indent=1)
        print('%s: %s' % (key, text))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for k in sorted(seen):
        print(known[k])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': r.coverage,
          'assumptions': r.assumptions, 'wall_s': round(time.time() - t, 1), 'violations': new}
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %s in %.0f s' % (pid, 'VIOLATED' if new else 'held', time.time() - t))
    return 1 if new else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
