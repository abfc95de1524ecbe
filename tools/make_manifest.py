"""Writes /verif/MANIFEST.json from the check modules and properties.jsonl."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    'C01': 'breadth-first search over operation histories and exhaustive product of the octahedral group, replayed on the real classes against 4x4 matrices',
    'C13': 'enumeration of all random-draw schedules and outlier placements on the real search loop',
    'C14': 'enumeration of all random-draw schedules on competing samples against a per-sample reference evaluation',
    'C18': 'enumeration of all call/mutation histories with state snapshots',
    'C19': 'stateless exploration of all interleavings at file system call granularity, deviation-free replay',
    'C08': 'enumeration of all write/read histories and row tables on real files',
    'C09': 'enumeration of all compose/save/load histories on real files against matrices',
    'C15': 'enumeration of all outlier placements on the real searches, randomness forbidden',
    'C20': 'enumeration of crash points and file-age states of the real driver with scripted stages',
    'C21': 'enumeration of all outcome patterns of the real experiment runs with scripted stages, and of row sets split into files',
    'C22': 'enumeration of all message sequences on the real export loop with scripted look-ups',
    'C23': 'enumeration of all option combinations and rig configurations on the real tools',
    'C24': 'enumeration of all fault subsets and run histories of the real script with stand-in stages',
    'C25': 'enumeration of all request/change histories over presets and of every preset on clean data',
    'C26': 'enumeration of all random-generator answers at range ends, middle and rounding neighbours',
    'C27': 'enumeration of all configurations and failing exports with recorded commands',
    'C29': 'enumeration of all sequences of image outcomes on the extractor compiled from the repository with scripted surroundings',
    'C32': 'enumeration of recordings, settings and broken inputs on the tool compiled from the repository with a recording optimiser',
    'C33': 'enumeration of all creation forms and values, each run through every operation and compared with the plain form',
    'C30': 'enumeration of plot calls and plot histories with figures read back, results compared bitwise',
    'C31': 'enumeration of result sets and grids with figures read back and compared with the rows',
}
DEFAULT = 'bounded exhaustive enumeration of inputs and histories on the real code against a reference model'

NOT_APPLICABLE = [
    dict(property='C28', reason='the refinement is a C++ tool on a continuous-time optimiser, ROS and aslam packages that are not available here, so there is no executable whose behaviours could be enumerated'),
]


def main():
  with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    ids = [json.loads(l)['id'] for l in f if l.strip()]
  na = {d['property'] for d in NOT_APPLICABLE}
  checks = []
  for pid in ids:
    path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
    if pid in na or not os.path.exists(path):
      continue
    with open(path) as f:
      tree = ast.parse(f.read())
    bound = None
    for node in tree.body:
      if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'BOUND':
        bound = ast.literal_eval(node.value)
    checks.append(dict(
        property=pid,
        quick_cmd='./check %s --tier quick' % pid,
        thorough_cmd='./check %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='model checking: ' + TECHNIQUE.get(pid, DEFAULT),
        level='model_checking',
        level_note='quick bound: ' + bound['quick']))
  manifest = dict(version=1, setup_cmd='./setup.sh', checks=checks,
                  not_applicable=[d for d in NOT_APPLICABLE if d['property'] in ids] + [
                      dict(property=p, reason='machinery not built yet') for p in ids
                      if p not in na and p not in {c['property'] for c in checks}])
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
