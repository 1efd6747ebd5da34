#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 'C01': ('random histories over every model kind, invariant on each decision', 'Every recommended and recorded policy of generated histories (all model kinds, stores, loads, restarts) is range-checked; features are finite, loaded files were written by a region of the same shape.'),
 'C02': ('model-based testing of operation sequences against a reference dataset', 'Datasets after random insert/merge/clear sequences and region executions equal an independent moving-average model (1e-12 relative).'),
 'C03': ('random datasets against a reference reduction; lookup regions differentially', 'Ties admit any minimal policy; metrics are finite.'),
 'C04': ('random datasets and depths against an independent Gini-tree oracle over the stored tree', 'The stored tree is replayed node by node over the training set: impurity of every split against the exhaustive minimum (with rounding tolerance), stop rules, leaf majorities, and the live decisions against the stored tree.'),
 'C05': ('random datasets against tree and vote oracles, bootstrap feasibility, determinism differential', 'The bootstrap sample is not observable: each tree is checked to be a correct tree for some sample with replacement as far as its stored counts determine it, plus statistics over many trainings.'),
 'C06': ('round-trip and differential testing of stored and loaded models', 'Decisions are compared on training vectors, threshold neighbours and random vectors; PolicyNet by its binary file and probabilities.'),
 'C07': ('round-trip of random datasets and multi-run histories against a reference model', 'Bit-exact comparison; finite values.'),
 'C08': ('exhaustive truncation points plus mutation fuzzing under AddressSanitizer', 'Every generated file is cut at every byte (files above 3000 bytes: sampled) in forked loaders; mutations are random.'),
 'C09': ('model-based testing of training triggers over random histories', 'Reference model of trainability, counters and training events; the content of a training is judged by the stored model per step.'),
 'C10': ('random histories with exact cyclic oracle and chi-square bounds for Random', 'Statistical bounds are set for a false-alarm probability below 1e-9 per run, with real and scripted random devices.'),
 'C11': ('grammar-based generation of model strings and settings against a documented-semantics oracle', 'Only documented meanings are asserted; unspecified strings (e.g. duplicates) are accepted either way.'),
 'C12': ('generated schedules of a scripted device runtime against a reference model', 'CUDA and HIP timers are compiled against stand-in event functions that complete on a generated schedule.'),
 'C13': ('scripted monotonic clock, random durations and interleavings, exact expected metrics', 'clock_gettime is interposed; the realtime clock moves independently.'),
 'C14': ('random histories, trace and report files parsed and compared with the history', 'Numbers are compared at the six digits the traces print.'),
 'C15': ('metamorphic: same history with and without subsets of the options', 'random_device is scripted to a constant, so the order of draws is no interface.'),
 'C16': ('metamorphic: interleaved against alone; single model against a reference merge', ''),
 'C17': ('generated multi-rank histories under real mpirun against a reference combination', '1..5 ranks on one host with Open MPI.'),
 'C18': ('random trainings against an independent Adam/REINFORCE computation; distribution tests', 'Weights compared at 1e-6..1e-4 tolerance, cases at ReLU kinks are skipped; sampling checked with a scripted generator and by frequency bounds (< 1e-9).'),
 'C19': ('generated declarations and request histories against the declared candidates and a reference record', 'The connector is linked and driven through its C entry points.'),
 'C20': ('differential: JIT build against default build, also concurrently', 'Both builds come from the same tree.'),
 'C21': ('metamorphic: one history through four interfaces', ''),
 'C23': ('generated valid programs under AddressSanitizer and valgrind; repeated operation blocks with a live-memory invariant', 'Programs come from the generators of the other properties; growth is judged on operator new and on device events.'),
 'C24': ('generated datasets, store/load combinations and histories in the OpenCV build against the fastest measured policies and times, and against the oracles of other properties', 'OpenCV 4.6 as installed.'),
 'C25': ('generated call chains through the program and loaded modules against the stack the harness reads itself', 'Stacks shallower than the distance, frames outside any module and file names with backslashes are not generated.'),
 'C26': ('generated programs, environments and failing runs; commands, settings and traces against the expected sequence', ''),
 'C27': ('differential: generated histories of several ranks under real mpirun against each history alone in the default build', '2..4 ranks on one host with Open MPI.'),
 'C28': ('generated kill points and blocked outputs, files and decisions against an undisturbed run', 'The kill is SIGKILL after an operation; outputs are blocked by directories, files, dangling links and /dev/full in their place.'),
 'C29': ('generated traced runs turned into datasets, entries against the rows of the traces', 'pandas is not installed: the script runs with a stand-in for the part it uses.'),
 'C22': ('generated models converted and the graph parsed back and matched with the model', 'Scripts run with the Python and PyYAML present; the graph is read with a small dot parser; the OpenCV script runs with a stand-in for cv2.FileStorage.'),
}
C = []
for i in range(1, 30):
    k = 'C%02d' % i
    t, n = T[k]
    C.append(dict(property=k, quick_cmd='python3-vt check.py %s' % k, thorough_cmd='python3-vt check.py %s --tier thorough' % k,
                  evidence_file='evidence/%s.json' % k, technique='property-based testing: ' + t, level='fault_enumeration' if k in ('C08', 'C28') else 'exploration',
                  level_note=('Held on every generated case; not a proof. ' + n).strip()))
doc = dict(version=1, setup_cmd='python3-vt -m vp.build', checks=C, not_applicable=[],
           notes='No hooks in /repo: clock, random device, GPU events and MPI are controlled from outside. /repo carries "fix:" commits only, listed in KNOWN_FINDINGS.txt.')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
