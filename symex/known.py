"""Known findings: inputs on which the unchanged tree breaks a property."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, 'known_findings.txt')


def entries():
    out = []
    with open(FILE) as f:
        for line in f:
            if line.startswith('finding: '):
                out.append(json.loads(line[9:]))
    return out


def key(v):
    return json.dumps([v['rings'], v['ops'], bool(v.get('reverse_output'))])


def sites():
    return {e['site'] for e in entries() if e.get('site')}


def listed_site(v):
    """Both implementations raise what is listed with its call site."""
    return bool(v.get('both_raise')) and v['both_raise'] in sites()


def listed(prop, v):
    if not v.get('rings') or not v.get('ops'):
        return False
    k = key(v)
    return any(e['property'] == prop and e.get('rings') and key(e) == k for e in entries())


def replay_all(prop):
    """Lines for the listed findings which still fail."""
    from . import engine as E
    lines = []
    for e in entries():
        if e['property'] != prop or not e.get('rings'):
            continue
        rings = [([tuple(p) for p in r], k) for r, k in e['rings']]
        res = E.concrete('port', rings, [tuple(o) for o in e['ops']],
                         bool(e.get('reverse_output')))
        f = E.failure(res)
        if f:
            lines.append('KNOWN-FINDING: property=%s %s: %s'
                         % (prop, e['what'], f))
    return lines
