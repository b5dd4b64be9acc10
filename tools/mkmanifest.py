"""Write MANIFEST.json from the table of worlds."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'C01': ('simulated HTTP server, network and disk faults, seeded search over attempt histories',
         'Real download code over a simulated socket layer and real files; samples fault sequences, does not enumerate them. Trusts the fake TCP/TLS layer and the disk shim.'),
 'C02': ('crash and disk-fault injection at every class of file operation, seeded histories against a reference merge',
         'Real merge, pandas, PyTables and HDF5 on a real scratch disk behind the libc shim; process death is modelled, power loss with lost page cache is not.'),
 'C03': ('sensor network simulation with injected losses against a run-length reference model',
         'Samples loss patterns; oracle is an independent definition of the gap rule.'),
 'C04': ('simulated command-line lifetimes with network, disk, interrupt and crash faults, then recovery',
         'Whole program run as __main__ in simulated process lifetimes; sampled histories.'),
 'C05': ('simulated sensor records, crash and disk-fault injection against a reference resampler',
         'Real conversion and HDF5; process death modelled, power loss not.'),
 'C06': ('simulated advecting cloud field and sensor array with known motion',
         'Sampled fields and layouts; tolerances follow from the sampling resolution of the scenario.'),
 'C07': ('sensor fault injection in a simulated array, differential against the array without the faulty sensors',
         'Sampled failure combinations; equality is exact up to optimiser tolerance.'),
 'C08': ('simulated plant with two motions, misrecorded and dead sensors',
         'Sampled plants; tolerance from the sampling resolution.'),
 'C09': ('simulated coordinator and lossy workers, reference permutation model and exact assignment oracle',
         'Sampled histories; independent assignment oracle.'),
 'C10': ('simulated recorders with clock offsets and faulty batch members; exact-delay and lone-pair oracles',
         'Sampled signals and batches.'),
 'C11': ('seeded scheduling of real threads at package statements',
         'Preemption only at package source lines, one thread at a time; library internals are atomic.'),
 'C12': ('exception injected at a seeded package statement, state audit and retry',
         'Exceptions surface at package source lines and inside library calls made from them.'),
 'C13': ('seeded histories of random-stream consumers and interleaved callers, fresh-process oracle',
         'Sampled seeds, histories and schedules.'),
 'C14': ('simulated random streams, seeds and adversarial draws against declared constraints',
         'Sampled streams and layouts.'),
 'C15': ('simulated random streams and adversarial draws against declared constraints',
         'Sampled streams and targets.'),
 'C18': ('simulated train of fronts over a plant and a reference recorder with its own clock, delayed-copies oracle',
         'Sampled plants and fronts; tolerance from the spatial step and frequency resolution. The triangle site shape is not judged.'),
 'C22': ('simulated plant with mislabelled combiners, several cloud motions, lossy workers and a restarting coordinator, repaired over several rounds',
         'Sampled plants; rounds are judged where the predictions leave no doubt within the derived estimation error.'),
 'C21': ('simulated stream growing day by day with lost, missing and late samples, day-table reference model',
         'Sampled streams; no daylight-saving change inside a stream.'),
 'C17': ('simulated season of a sensor field with injected losses and sensor failures, cut into periods; definitions over the valid records as oracle',
         'Sampled seasons; ties within rounding are avoided by sensor noise.'),
 'C19': ('simulated season with failing periods, estimated motions and an archive; own assignment over all turns as oracle',
         'Sampled sets; the optimiser is judged to within a tenth of the best spread.'),
 'C23': ('simulated recorders behind known paths with injected recorder failures and interference; plain-numpy spectra and the paths as oracle',
         'Sampled batches; the path itself is judged for sources that repeat with every segment.'),
 'C16': ('simulated survey by crews with own bases, frames and lost fixes, seeded histories of frames; own projection series as oracle',
         'Sampled places and histories of frames; no plant across the equator.'),
 'C20': ('simulated season with injected sensor and model failures; elementwise definition as oracle',
         'Sampled seasons.'),
}
NA = {
}
sys.path.insert(0, here)
done = sys.argv[1:] or sorted(CLAIMED)
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
na += [{'property': k, 'reason': 'The check of this property is not finished yet.'} for k in sorted(CLAIMED) if k not in done]
man = {'version': 1, 'setup_cmd': 'bash run.sh setup',
       'checks': [{'property': k, 'quick_cmd': f'bash run.sh {k} quick', 'thorough_cmd': f'bash run.sh {k} thorough',
                   'evidence_file': f'evidence/{k}.json', 'technique': 'deterministic simulation: ' + CLAIMED[k][0],
                   'level': 'exploration', 'level_note': CLAIMED[k][1]} for k in done],
       'not_applicable': na,
       'notes': 'No hooks in /repo: every seam is reached from outside the package. See DESIGN.md.'}
json.dump(man, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
