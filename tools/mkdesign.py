"""Writes DESIGN.md from the checks, the properties and the list of planted bugs (run by hand after changes)."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HEAD = '''# Runtime monitoring of google-research/vmoe

All properties are decided by one family of technique: the real code of /repo is executed under generated, hostile and stress
workloads, monitors record what happened, and an oracle judges the recorded executions. No source text is inspected and
nothing is compiled in: `VMOE` is pure Python on JAX/TF, so compiler sanitizers have no code of the repository to
instrument; the equivalents used here are monitors on Python/JAX boundaries (see below). No hooks were added to /repo.

## Machinery

* `run.py <ID> --tier quick|thorough --seed N [--replay FILE]` runs one property. `vlib/driver.py` starts one worker process
  per *spec* of the check (up to 8 at a time, each with its own number of XLA host devices; specs with `procs=n` are n real
  `jax.distributed` ranks on loopback with a shared scratch directory), kills workers that hang, merges what they recorded,
  writes `evidence/<ID>.json` and the replay files.
* `vlib/worker.py` runs the cases of a spec. Each case is seeded by (property, seed, spec, case), so a replay file re-runs
  exactly that case. An oracle raises a violation; an exception out of the code under test during a *valid* use is a
  violation as well; problems of the harness alone make the check inconclusive (exit 2), never a violation.
* Every check has `REQUIRED`: the least number of monitor events (states seen, chunks compared, crashes injected, ...) below
  which the check says it could not decide, so a workload that silently stops exercising something cannot pass.
* Observation is at behavioural boundaries: values returned and written, files on disk, data-dependent operators recovered by
  feeding identity/one-hot inputs, random numbers recorded at the boundary of jax.random, events on a shared clock. Private
  names of the repository are avoided, so that refactorings leave the checks quiet.
* Boundaries replaced by stand-ins: TFDS builders (`vlib/toyds.py`, no network), `vit_jax` (`stubs/`, not installed),
  RandAugment and tokenizers (packages not installed), Big Vision evaluators (recording stand-ins).

Monitors per kind of guarantee:
* *crash points*: the on-disk state is captured at every executed line of the checkpoint code, in the middle of each write
  and around each rename, and recovery is run on each image; I/O errors are injected at each call; processes are SIGKILLed.
* *schedules*: gates hold back writer threads; injected delays at barriers; several real processes; offline order checkers.
* *numerics*: float64 NumPy definitions written from the documentation/papers, with tolerances from the working precision.
* *distribution*: the same execution on 1..8 devices and several processes must agree with the single-device one.
* *exactly once / conservation*: multiset checks over everything all processes produced.

Costs: every quick check takes 3-55 s on this machine (8 cores); thorough runs the same workloads with 20-100 times the
cases (minutes to an hour).

## Properties
'''

TAIL = '''
## Defects found and repaired (each a `fix:` commit in /repo, listed in known_findings.jsonl)
{fixed}

No property has an open known finding; `not_applicable` is empty: every property could be decided by monitored executions.

## False alarms met while building, and what was done
* P29: reported FLOPs depend on the mesh, so they are not compared after a restart on another mesh; after a kill, a
  half-deleted *old* checkpoint may remain on disk (Orbax deletes in place), only the newest is required to be complete.
* P31: `re.sub('.*', ...)` matches twice (also the empty string at the end); the harness does not generate such rules.
* P12: gradients at exactly balanced loads were first excluded as ill-defined; they turned out to be a genuine defect (NaN
  from the square root at 0) and were fixed instead.
* P37: a check of measured step times was removed (depends on the load of the machine); uptime is only compared without
  asynchronous dispatch.
* P36/P38: strings with trailing blanks are not asserted either way.

## Limits (not asserted either way)
* items-per-expert capacity rounded above the group size is rejected loudly; overwriting a sharded step is not atomic across files
  (the index is replaced last; P02 checks recovery to a complete older step).
* evaluation metrics when a model returns NaN on padding examples; few-shot repeatability with `cache='loaded'`; TFDS refuses
  empty per-process splits; process strings are split naively on '|'; `ignore_errors`.
* `initialize_from_orbax` reads only legacy aggregate-file checkpoints with the installed Orbax; `_natural_sort` with '-' or
  exponents in names; the similarity maximum of SoftRouter when all similarities are negative.
* the contrastive trainer ignores auxiliary losses nested under `img`/`txt` (intent unclear); gradients of TwoTower at exactly zero
  embeddings; EncoderMoeEnsemble ignores `attention_qk_norm`.
* `clu` ReportProgress never fires at its first call; few-shot with the same train and test split is rejected loudly.
* TPU hardware, GCS and multi-host networks are simulated (topologies as device objects, processes on loopback).

## Planted bugs and which checks catch them
{seeded}
'''


def main():
  out = [HEAD]
  manifest = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
  for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    mod = importlib.import_module('checks.' + p['id'].lower())
    c = manifest[p['id']]
    q, t = list(mod.specs('quick')), list(mod.specs('thorough'))
    out.append(f"### {p['id']} {p['title']}\n{p['statement']}\n")
    out.append(f"* Technique: {c['technique']}.")
    out.append(f'* Workload and oracle: {mod.RULE}.')
    out.append(f"* Monitors that must have fired: {', '.join(f'`{k}`>={v}' for k, v in mod.REQUIRED.items())}.")
    out.append(f"* Bounds: {len(q)} workers quick, {len(t)} thorough; sampled, not exhaustive.")
    why = p.get('why') or p.get('why_not_tests') or ''
    if not why:
      why = next((v for k, v in p.items() if 'why' in k or 'tests' in k), '')
    out.append(f'* Beyond the tests: {why}\n')
  fixed = [json.loads(x) for x in open(os.path.join(ROOT, 'known_findings.jsonl')) if x.strip()]
  rows = []
  for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append(f"* `{os.path.basename(os.path.dirname(d))}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']} {('**' + m['checked'] + '**') if 'checked' in m else ''}")
  out.append(TAIL.format(fixed='\n'.join(f"* {f['property']} {f['commit']}: {f['what'].split(f['commit'])[-1].strip()}" for f in fixed), seeded='\n'.join(rows)))
  open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out).replace('`VMOE`', 'vmoe'))


if __name__ == '__main__':
  main()
