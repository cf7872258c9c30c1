"""Writes the per-property part of DESIGN.md: contracts from the registry, notes from here (run with python3-vt)."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import registry                                                                   # noqa: E402
from vc import unit as U                                                          # noqa: E402

NOTES = {
 'C01': """Frames are built through the public constructor with symbolic bounds (present, None or NaT), so the contracts hold
for every history of assignments: each setter is proved to keep `start < end` from any reachable frame.""",
 'C02': """The frames may be open on either side, empty, and flagged or not. `slice` is followed for one arbitrary row; selecting
rows by a boolean array is an assumed contract of pandas.""",
 'C03': """`merge_timeframes` is verified for a list of any length: loop invariant = "the frames merged so far cover exactly
the frames read so far and are separated by more than the gap", for one arbitrary instant.""",
 'C04': """`tf.split` uses the durations as reals; the lemma that pieces of equal duration tile the frame is an induction on the
`while` loop of the real code.""",
 'C05': """`hash` is an uninterpreted function of its arguments, so "equal frames hash equally" is decided for every hash.
`functools.total_ordering` derives `<=`, `>`, `>=` from `<` and `==`; `>` can hold in both directions for frames with
the same start (recorded as an observation, sorting uses `<` only).""",
 'C06': "The result list of `intersection` is a fold over pairs; emptiness of a pair comes from the contract of C02.",
 'C07': """The store is an abstract table (rows with strictly increasing times); `store.select(start, stop)` and
`select_as_coordinates` are assumed contracts. Proved: consecutive chunks, their frames, the shared row and the look-ahead.""",
 'C08': """`pd.read_csv(chunksize)` is an assumed contract (consecutive blocks of the file rows). Known findings: see below.""",
 'C09': """Runs are stated with prefix counts over one arbitrary row; numpy's diff/where/concatenate are array contracts.""",
 'C10': """`gs.chunk` runs three chunks of arbitrary content: they reach every state of the node and make every step.
`gr.combined` is for tables as `get_good_sections` produces them (previous row's last section open iff next row's first is).""",
 'C11': "One arbitrary pair of stored periods; tables of any size.",
 'C12': """Sums are recurrences over the rows, unfolded at one arbitrary row; `te.additive` is the lemma that makes the total
independent of chunking (chunks share their boundary row by C07).""",
 'C13': """`dr.rate` is verified for the numbers the real code computes from an index of unknown length.""",
 'C14': "The available columns are arbitrary; AC types and quantities are the finite vocabulary of the code.",
 'C15': """Keys are texts; the contract ranges over the finite shapes of keys with arbitrary numbers (their decimal text is a token).""",
 'C16': "Requirements are nested dictionaries of any depth (recursion verified against its own contract).",
 'C17': "The learnt states per appliance and the mains samples are arbitrary; scikit-learn's fit is an assumed contract.",
 'C18': """hmmlearn's fit and predict are assumed contracts. Joint states are mixed-radix numbers; `fh.position`, `fh.digit`,
`fh.rest` are the arithmetic lemmas, instantiated where used. Float division in `decode_hmm` is exact below 2**53 (assumed).""",
 'C19': "The pair buffer is an array of unknown length with ghost flags per edge; both loops of the pairing carry invariants.",
 'C20': "The automaton of the steady-state detector is followed by a ghost copy of its definition over an arbitrary sample.",
 'C21': """Groups have any number of meters; one arbitrary meter is followed. Nested groups are verified against the contract of
`matches` (recursion). Refactored shapes of `swap`, `getlist`, `matches` fall back to the bounded stand-in.""",
 'C22': "Sums are uninterpreted recurrences; equal recurrences are proved equal term by term (`ls.*` per metric).",
 'C23': "Generators of chunks are abstract; per cell one arbitrary meter is added. The grid is real `date_range` on instants.",
 'C24': "The on/off automaton over an arbitrary row; gaps and durations are real instants.",
 'C25': """Sections are followed one arbitrary section at a time: a collection is known by whether it holds it (`vc` `abstract_comp`), a
result table by its rows for it. All combinations of the decisions the code can make are enumerated (finite: in the cache or not,
per key; independent or not; AC types there or not; refused by the store or not). That a stored row equals a fresh one is the
induction over queries: stored only where it is looked for (`cs.get`), keys separate (`cs.names`, `cs.key`), what comes back from the
table is what went in (`rs.*`, `gsr.*`, `ut.localize`), and only for sections that do not depend on others (`gsr.independent`,
with `gs.chunk` and `gr.combined` of C10). Assumed: the store gives back what was appended; meter devices do not change.""",
 'C26': "Batches and appliances of any number; the running (total, count) pair per appliance is the invariant.",
 'C30': """A chunk is known by the sums over it of the monomials of the two series (a `Chunk` is a polynomial in them); running totals are
identified by a trial iteration and proved by induction over the chunks; loops over generators carry the invariant across the yield.
`Series.sum` linear, a sum of squares not negative: assumed.""",
 'C31': """The list of nodes has any length: invariant "each node so far is connected to the one before"; tables are terms (how they
came about), so the contract fixes which pandas operations are applied in which order; what `resample().mean()` and `ffill(limit)`
compute is an assumed contract of pandas, which the executable contract checks against its own arithmetic.""",
 'C32': "One arbitrary chunk; for all data one arbitrary element of the list of parts, before and after shared rows are dropped.",
 'C33': """Energies are rows of three AC types (has, value, missing), the closed list of the code, with pandas' rules for labels that only one
side has; groups have any number of meters, with the running total per AC type as ghost. The remainder is proved against the
contracts of the table, of the mains and of `most_common`.""",
 'C34': """Sections of any number: ghost NS(k) records in the first k. `train_fraction * N` is a named number between 0 and N, which keeps the
obligations linear. Machine floats taken as real numbers.""",
 'C35': """One arbitrary meter and one arbitrary appliance are followed through building descriptions of any size: ghost counts of how often the
meter is in the group itself, disabled, and of how often the appliance is on it; the four loops (meters, appliances, meters of an appliance,
disabled meters) are proved by induction over these counts. Meter lookup by its contract (C21).""",
 'C36': """Metadata is an arbitrary object; HDF: a tree of nodes (PyTables by assumed contract); CSV: files by path, for any building number
and any number of meters (loop invariant: every meter so far has its location). Sequences of operations on real files by the executable
contract.""",
 'C37': """A table is known by where it came from and, at one arbitrary time, by its row; models, metrics, data sets, buildings, chunks and
appliances of any number, one arbitrary one of each followed (ghost counts of how often it was trained on or tested; iterators' positions).
The five nested loops are cut with their invariants; dropna, the artificial aggregate, predict, compute_loss and call_predict are checked at
their own contracts. Values at all times, and pandas, by the executable contract (recording models, fake data sets).""",
 'C38': """Any number of pairs, of stretches per pair and of samples per stretch: the sums over the stretches are ghost totals identified with the
locals that hold them, the dictionary of results is followed at one arbitrary pair (`Filing`), alignment is a generator whose loop is cut at one
arbitrary stretch. Resampling, `dropna` and scikit-learn's score by assumed contract; real pandas and fake meters in the executable contract.""",
 'C39': """Rounds of any number over any number of meters: the lists of one round hold one arbitrary meter just if it has data in it, one arbitrary
round is in the table just if a meter has data, and the loop is left only when one arbitrary (hence every) meter has no more chunks. Pairs:
nested induction over the cells. Identifiers: first occurrences as a ghost predicate.""",
 'C40': """Any number of appliances (one arbitrary one followed: its value is in the list just if its type states one; none before it is marked),
of meters and of chunks (loop invariants; `when_on` as a generator cut at one arbitrary chunk). What a chunk's activations are is C24. `min`,
`np.max` and `set` by assumed contract; real objects with made-up types in the executable contract.""",
 'C27': "Four nested loops (buildings, utilities, meters, chunks), each with the number of rows of one arbitrary table as ghost.",
}


def main():
    out = []
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    for p in props:
        pid = p['id']
        out.append('### %s %s\n' % (pid, p['title']))
        if pid in registry.NA:
            out.append('Not applicable: %s.\n' % registry.NA[pid])
            continue
        out.append(NOTES.get(pid, '').strip() + '\n')
        out.append('| contract | states | on |')
        out.append('|---|---|---|')
        for m, u in registry.units_of(pid):
            importlib.import_module('units.' + m)
            x = U.REGISTRY[u]
            fs = ', '.join('`%s`' % f.split(':')[1] for f in dict.fromkeys(x.functions))
            out.append('| %s | %s%s | %s |' % (u, ' '.join((x.title or '').split()).replace('|', 'or'),
                                              ' (stand-in sizes %s)' % x.sizes if x.sizes else '', fs))
        mods = json.load(open(os.path.join(HERE, 'oracle', 'modules.json')))[pid]
        out.append('\nExecutable contract: `oracle/%s.py`.\n' % '.py`, `oracle/'.join(mods))
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = s.index('## Properties'), s.index('## Planted bugs') if '## Planted bugs' in s else len(s)
    s = s[:a] + '## Properties\n\n' + '\n'.join(out) + '\n' + s[b:]
    open(path, 'w').write(s)


main()
