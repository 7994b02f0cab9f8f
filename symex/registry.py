"""Properties, their jobs, and the driver which runs them."""
import json
import os
import shutil
import time
import traceback

from . import engine as E
from . import known
from . import native as N
from . import pool
from . import explore as X

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'out')

CHECKS = {}
NATIVE_SCOPE = {
    'headers': ['include/mapbox/geometry/wagyu/*.hpp: all that the '
                'operations of wagyu<T> instantiate, on the tracing type'],
    'clip': ['include/mapbox/geometry/wagyu/quick_clip.hpp and all that its '
             'functions instantiate, on the tracing type'],
    'interrupt': ['include/mapbox/geometry/wagyu/*.hpp with '
                  'USE_WAGYU_INTERRUPT: all that the operations of wagyu<T> '
                  'instantiate, on the tracing type'],
    'binding': ['src/main.cpp and include/mapbox/geometry/wagyu/*.hpp: all '
                'that the bound calls instantiate, on the tracing type'],
    'kernels': ['wagyu/utils.py: float comparisons and roundings',
                'include/mapbox/geometry/wagyu/{util,almost_equal,ring_util}'
                '.hpp: the same, from LLVM IR'],
}


def check(prop, jobs, run, *, build=('headers',), quick_s=45, thorough_s=1500,
          explanation='', bounds='', assumptions=(), replay=None,
          min_paths=1, job_s=40):
    CHECKS[prop] = dict(jobs=jobs, run=run, build=build, quick_s=quick_s,
                        thorough_s=thorough_s, explanation=explanation,
                        bounds=bounds, assumptions=list(assumptions),
                        replay=replay, min_paths=min_paths, job_s=job_s)


def load():
    from . import claims                                   # noqa: F401


def save_replay(prop, i, v):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s-%d.json' % (prop, i))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, default=str)
    return path


def crash_candidate(job, note):
    """Replay what a dead worker was doing."""
    if not note or not note.get('values'):
        return None
    if 'spec' in job:
        from . import lockstep as L
        why = L.problem(job['spec'], note['values'])
        return L.found_at(job['spec'], note['values'], why) if why else None
    if 'case' not in job:
        return None
    case = job['case']
    for impl in job.get('impls') or ('native', 'port'):
        why = E.replay(E.concrete_rings(case, note['values']), job['ops'],
                       job['reverse'], impl, None, case.get('exact', True),
                       (), job.get('closed', True),
                       E.meant_rings(case, note['values']))
        if why:
            return E.describe(case, note['values'], job['ops'],
                              job['reverse'], impl, why,
                              closed=job.get('closed', True))
    return None


def run(prop, tier, seed):
    load()
    c = CHECKS[prop]
    t0 = time.time()
    budget = c['quick_s'] if tier == 'quick' else c['thorough_s']
    stats = X.Stats()
    found, samples, notes = [], [], []
    functions = set()
    try:
        if 'clip' in c['build']:
            N.FLAGS[:] = ['-DCLIP']
        if 'interrupt' in c['build']:
            N.FLAGS[:] = ['-DINTERRUPT']
        if 'headers' in c['build']:
            b = N.builds()
            for k, v in b.items():
                if isinstance(v, N.BuildError):
                    notes.append('%s build of the headers failed: %s'
                                 % (k, str(v)[-400:]))
        if 'binding' in c['build']:
            from . import binding
            for k, v in binding.builds().items():
                if isinstance(v, N.BuildError):
                    notes.append('%s build of the binding failed: %s'
                                 % (k, str(v)[-400:]))
        if 'kernels' in c['build']:
            from . import floats
            for k, v in floats.build().items():
                if isinstance(v, N.BuildError):
                    notes.append('%s build of the helpers failed: %s'
                                 % (k, str(v)[-400:]))
        build_s = time.time() - t0
        deadline = time.time() + budget
        jobs = c['jobs'](seed, tier)
        E.port()
        E.real()

        def one(job):
            limit = min(deadline, time.time() + c['job_s'])
            return c['run'](job, limit, seed)
        ended = X.Stats()
        for job, kind, value, note in pool.run_jobs(
                jobs, one, deadline=deadline, job_seconds=c['job_s'] + 45):
            ended.add(kind)
            if kind == 'ok':
                st, vs, sample = value
                functions.update(st.pop('functions', ()))
                stats.merge(st)
                found.extend(vs)
                if sample is not None and len(samples) < 12:
                    samples.append(sample)
            elif kind == 'error':
                notes.append('job %s: %s' % (job.get('name'), value[-600:]))
            elif kind in ('signal', 'timeout'):
                notes.append('job %s ended by %s %s' % (job.get('name'), kind,
                                                        value))
                v = crash_candidate(job, note)
                if v:
                    found.append(v)
            if len([v for v in found if not known.listed(prop, v)]) >= 3:
                break
        extra = known.replay_all(prop)
    finally:
        N.cleanup()
        if 'kernels' in c['build']:
            from . import floats
            floats.cleanup()
        if 'binding' in c['build']:
            from . import binding
            binding.cleanup()
    for line in extra:
        print(line)
    fresh = [v for v in found if not known.listed(prop, v)]
    uniq = []
    keys = set()
    for v in fresh:
        k = json.dumps([v.get('rings'), v.get('ops'),
                        v.get('implementation'), v.get('values'),
                        v.get('case')],
                       default=str)
        if k not in keys:
            keys.add(k)
            uniq.append(v)
    write_evidence(prop, tier, seed, c, stats, ended, uniq, samples, notes,
                   functions, len(jobs), build_s, time.time() - t0,
                   len(found) - len(fresh))
    for n in notes[:5]:
        print('note:', n[:300].replace('\n', ' | '))
    print('%s: %d jobs done, %d paths, %d queries (%d unknown), %d verdicts '
          '(%d unsat), %d diverged, %.0f s'
          % (prop, ended.get('ok', 0), stats.get('paths', 0),
             stats.get('queries', 0), stats.get('unknown', 0),
             stats.get('verdicts', 0), stats.get('verdict_unsat', 0),
             stats.get('diverged_paths', 0), time.time() - t0))
    if uniq:
        for i, v in enumerate(uniq):
            path = save_replay(prop, i, dict(v, property=prop))
            print('counterexample: %s' % json.dumps(
                    v, default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if stats.get('paths', 0) < c['min_paths']:
        print('nothing explored: inconclusive')
    return 0


def write_evidence(prop, tier, seed, c, stats, ended, found, samples, notes,
                   functions, total, build_s, wall, suppressed):
    undecided = {k: stats.get(k, 0) for k in (
        'unknown', 'undecided', 'verdict_unknown', 'inconclusive',
        'unexplored', 'diverged_paths', 'not_reproduced', 'concretized',
        'branch_mismatch', 'vacuous', 'ulp_assumed', 'native_not_encoded')}
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        wall_s=round(wall, 2), violations=len(found),
        assumptions=c['assumptions'],
        coverage=dict(
            states=int(stats.get('paths', 0)),
            transitions=int(stats.get('queries', 0)),
            traces_validated_against_impl=int(stats.get('runs', 0)),
            samples=samples or ['none'],
            explanation=c['explanation'],
            bounds=c['bounds'],
            meaning='states: symbolic paths of the real code (each stands '
                    'for every input satisfying its path condition); '
                    'transitions: solver queries; traces validated: '
                    'executions of the real code on solver-chosen witnesses',
            functions_encoded=sorted(functions) + NATIVE_SCOPE[
                c['build'][-1]],
            jobs=dict(ended, total=total,
                      complete=int(stats.get('complete_jobs', 0))),
            queries=dict(total=stats.get('queries', 0),
                         sat=stats.get('sat', 0),
                         unsat=stats.get('unsat', 0),
                         unknown=stats.get('unknown', 0)),
            solver_s=round(stats.get('solver_s', 0.0), 2),
            build_s=round(build_s, 2),
            verdicts=dict(total=stats.get('verdicts', 0),
                          unsat=stats.get('verdict_unsat', 0),
                          unknown=stats.get('verdict_unknown', 0)),
            outside_the_claim=undecided,
            known_findings_met=suppressed,
            notes=notes[:20]))
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
