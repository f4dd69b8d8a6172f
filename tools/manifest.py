#!/usr/bin/env python3
"writes MANIFEST.json from the table below"
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> (script, technique, level note)
M = 'TLA+ model of machines, beam states, observers and settings (spec/Machine.tla); TLC enumerates or samples behaviours with predicted outcomes, which are replayed on the real library; '
CHECKS = {
 "C01": ("machine.py", M + 'visits, position, next element and bitwise result of every call compared with the predicted element sequence applied one at a time',
         'all start/count pairs and pairs of calls on short lattices; sampled behaviours and segmentations on long ones'),
 "C02": ("machine.py", M + 'every observation and trace line compared with the predicted visiting sequence and the state right after each element',
         'all bounded behaviours of observe/trace/propagate calls; sampled longer ones'),
 "C03": ("machine.py", M + 'results of long-lived machines compared bitwise with machines without history and with reuse of matrices switched off',
         'all bounded call sequences per element type; sampled longer behaviours on mixed lattices'),
 "C04": ("machine.py", M + 'behaviour, listing and configuration compared with a freshly built machine after every reconfiguration',
         'bounded call sequences for every element type and setting; sampled longer ones'),
 "C05": ("machine.py", M + 'refused calls interleaved everywhere; machine, states, listing and later results compared with the prediction that the call had no effect',
         'sampled and bounded-exhaustive behaviours with a table of refused calls per element type'),
 "C11": ("machine.py", M + 'histories whose term cancels in the specification must give back the beam to 1e-9, refusals must be exactly the predicted ones',
         'bounded call sequences for every element variant; sampled ones on mixed lattices'),
 "C12": ("machine.py", M + 'every live state compared after every call with the predicted value history of that state alone',
         'bounded call sequences over all exported arrays; sampled longer ones'),
 "C13": ("machine.py", M + 'charge states predicted by the specification and weighted averages recomputed after every element; a second specification (spec/Beam.tla) of the beam each configuration denotes, enumerated and replayed',
         'sampled behaviours on lattices with sources, strippers and 1-12 charge states'),
 "C14": ("machine.py", M + 'lookup results after every call compared with the predicted current names and types',
         'all bounded reconfiguration histories on small lattices; sampled ones on long lattices'),
 "C16": ("files.py", "TLA+ model of data files, time stamps and the cache of tables read from them (spec/FileCache.tla); TLC enumerates or samples histories of writing, replacing, touching, breaking, removing and reading with predicted outcomes, replayed on the real cache and on cavity elements",
         "all bounded histories over the stated files and contents; sampled longer ones"),
 "C17": ("record.py", "TLA+ model of recorders, files, groups and rows (spec/H5Rec.tla); TLC enumerates or samples call sequences with predicted file contents, replayed with real writers and read back with the plain HDF5 library",
         "all bounded call sequences over one file; sampled ones over several files, groups, writers and charge-state counts; long recordings"),
 "C18": ("cli.py", "TLA+ process model of the command line tool (spec/Cli.tla); TLC enumerates all option combinations with predicted visited and reported elements, warnings and exit status; each is run with the real executable, numbers compared with the library",
         "all combinations of the stated option values are model checked; a seeded sample of them is executed per run (all stages of error)"),
 "C19": ("pyapi.py", "TLA+ models of the Python objects (spec/PyApi.tla) and of value conversion (spec/PyConv.tla); TLC enumerates or samples call sequences, including a table of misuses at every point, with predicted outcome and description of every live object; replayed in a real interpreter, descriptions evaluated in a separate clean one",
         "all bounded lifetimes of objects, every listed misuse on every kind of machine, all combinations of value classes; sampled longer histories"),
 "C15": ("registry.py", "TLA+ model of the registry of types (spec/Registry.tla): TLC enumerates or samples call sequences with predicted results (RegistryMC), replayed on the real registry; concurrent histories recorded from the real code, calls nested in element constructors included, must be linearizable with respect to it (RegistryLin, decided by TLC)",
         "all bounded sequences of one caller; random programs of 2-6 threads under scheduling perturbation"),
 "C20": ("logs.py", "TLA+ model of threshold, sinks and deliveries (spec/Log.tla): TLC enumerates or samples call sequences, with sinks that act while they receive, replayed with real sinks and through Python's logging; concurrent histories of messages and sink exchanges recorded from the real code must be linearizable (spec/LogLin.tla, decided by TLC)",
         "all bounded sequences over levels, thresholds and sinks; sampled longer ones; random programs of 2-6 threads under scheduling perturbation"),
 "C06": ("c06_07.py", "TLA+ design model of copy-on-write scopes refined against an abstract value model (TLC); every exported transition replayed into the real Config, recorded random runs validated by TLC trace checking",
         "exhaustive on the model within the stated handle/key bounds; conformance by transition cover and trace validation"),
 "C07": ("c06_07.py", "same TLA+ model with several value types; typed reads observed after every replayed or recorded step",
         "exhaustive on the model within the stated bounds; conformance by transition cover and trace validation"),
 "C08": ("lattice.py", "TLA+ parser/evaluator state machine; TLC enumerates all bounded token words with predicted element sequence, each replayed into the real parser; TLC as oracle on random programs",
         "all words up to the stated length over the stated alphabets; random programs beyond"),
 "C09": ("lattice.py", "TLA+ lexer and parser state machines; TLC enumerates all bounded token words and character words with accept/reject prediction and line, replayed into the real parser; TLC as oracle on mutated random programs, layouts and byte-level mutations of texts",
         "all words up to the stated length over the stated alphabets; random programs beyond"),
 "C10": ("lattice.py", "TLA+ meaning of a lattice text; printed text of the real code parsed again and compared, for all bounded words and random programs",
         "all words up to the stated length over the stated alphabets; random programs beyond"),
 "C21": ("lattice.py", "TLA+ operator-precedence evaluator checked against an independent declarative meaning (TLC); all bounded expression words replayed into the real parser; TLC as oracle on random programs",
         "all words up to the stated length over the stated alphabets; random programs beyond"),
 "C23": ("optics.py", "TLA+ specification of lattices of guiding elements, their meaning and the laws by which one may replace another (spec/Optics.tla); TLC checks that no law changes the meaning and enumerates or samples equivalent lattices and mirror images; each is run in the real code and must give the same beam, with conservation laws checked after every element",
         "all pairs of law applications on single elements of every kind and setting; sampled longer lattices and sequences of 12 laws; equality to 3e-9 of the beam size"),
 "C24": ("optics.py", "the same specification (spec/Optics.tla) with cavities, whose laws are periodicity, the opposite field half a period later, roundness and rewritten data files; TLC checks the laws against the meaning and samples equivalent lattices and mirror images, each of which is run in the real code and must give the same beam; conservation, frequency and reference laws on every lattice",
         "all pairs of laws on single cavities of every type; sampled lattices of up to 3 cavities and sequences of 10 laws; equality to 1e-7 of the beam size, energies to 1e-11"),
 "C22": ("lattice.py", "TLA+ model of names, links and directories (Walk) and of nested lattices inside the parser specification; TLC enumerates every name up to a length from every directory and the real parser must give the predicted value; TLC as oracle on random lattices spread over random directory trees, through every entry point including the Python module",
         "all names up to 3 components (4 thorough) over random trees with links; sampled programs"),
}
NA = {}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    M = dict(version=1, setup_cmd="python3 lib/setup.py",
             checks=[dict(property=p, quick_cmd="python3 checks/%s %s" % (CHECKS[p][0], p),
                          thorough_cmd="VERIF_TIER=thorough python3 checks/%s %s" % (CHECKS[p][0], p),
                          technique=CHECKS[p][1], level="model_checking", level_note=CHECKS[p][2])
                     for p in props if p in CHECKS],
             not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CHECKS],
             hooks=dict(guard="", enable="", source_commits=[]))
    json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
