"""Regenerates MANIFEST.json from the list below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'PKF': 'TLC evaluates both sides of every delivered equation in sampled worlds (GF(46199) jets, finite probability space); '
        'sampled systems (corpus + PDEGen.tla), identities decided up to ~degree/46199. Trusts the serialiser of expressions.',
}
T_PKF = 'TLA+ (TLC): trace validation of the delivered systems against a first-principles specification (PKFReal.tla), inputs from a generator specification'
CLAIMS = json.load(open(os.path.join(V, 'tools', 'claims.json')))
checks = []
for pid, (tech, note) in sorted(CLAIMS.items()):
    checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=tech, level='model_checking', level_note=note))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = [dict(property=p, reason='check under construction') for p in props if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='All checks: specification in spec/*.tla (TLA+, TLC); harness/*.py drives sympkf from /repo/src and records what it does. '
                     'No hooks in /repo are needed: every observation is the return value of a public call.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
