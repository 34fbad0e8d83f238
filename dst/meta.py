"""Per-property budgets and the fixed parts of the evidence."""
NETREAL = ['ncdiff (all modules, from /repo/src)',
           'ncclient session, RPC matching, framing, parsing', 'pyang',
           'lxml', 'python threading/queue on the simulated scheduler']
NETSTUB = ['socket and selector (simulated network)',
           'NETCONF device (reference model written from the RFCs)',
           'clock, timers, thread scheduling (simulated)']
ASSUME = ['the simulated device follows RFC 6241/7950 with trim-mode '
          'defaults and applies an edit in document order',
          'schemas come from the generator: containers, lists, leaf-lists, '
          'leaves, choices, identities, augments, submodules, typedefs',
          'a clean result means no counterexample among the seeds run']
NOTE = ('Seeded search, not exhaustive: the property held in every simulated '
        'run. Trusted: the simulator, the reference device and the generator '
        'of schemas and states.')

DISKREAL = NETREAL + ['files in a real scratch folder']
DISKSTUB = NETSTUB + ['open, listdir, rename, remove, mkdir on the scratch '
                      'folder (disk seam that fails, tears, crashes and '
                      'permutes listings)']
SCANASSUME = ['a crash is a process crash: data handed to the operating '
              'system survives, buffered data may be lost from any point on',
              'capabilities change whenever the published schemas change',
              'a clean result means no counterexample among the seeds run']

CLIREAL = ['ncdiff.runningconfig (from /repo/src)',
           'python threading on the simulated scheduler']
CLISTUB = ['CLI device: grammar, printing, execution of command lines',
           'CLI session that is cut at any line']
CLIASSUME = ['the device prints a section in an order of its own, only '
             'neighbouring orderless commands in any order',
             'two plain commands of which one extends the other by words do '
             'not coexist, except those listed as coexisting',
             'commands that the code lists as overwritable or as having a '
             'short no form are single valued on the device',
             'names of sections are one word',
             'a clean result means no counterexample among the seeds run']


def _m(quick, thorough, technique, rule, real=NETREAL, stub=NETSTUB,
       assume=ASSUME, note=NOTE, pairs=False):
    return {'quick': quick, 'thorough': thorough, 'rule': rule,
            'technique': technique, 'note': note, 'pairs': pairs,
            'real': real, 'stub': stub, 'assumptions': assume}


META = {
    'C01': _m(1500, 12000,
              'edits sent through a faulty simulated network to a reference '
              'device with concurrent operators',
              'distinct (source state, destination state, delta '
              'options) whose edit landed on the source state of the '
              'simulated device or its twin'),
    'C02': _m(1500, 12000,
              'predicted result refined against the reference device at the '
              'state where the edit really lands',
              'distinct (state, edit payload) pairs whose '
              'predicted and real outcome were compared'),
    'C03': _m(1400, 10000,
              'algebraic laws on snapshots read through the faulty network, '
              'and bounded convergence of a reconciliation loop',
              'distinct (state, state, options) algebra cases '
              'and (device state, goal) reconciliation rounds'),
    'C04': _m(1000, 8000,
              'random operation histories with faults; every live object is '
              'compared with its content at creation after each step',
              'distinct (number of live objects, operation just '
              'done) verifications of all live objects'),
    'C05': _m(1400, 10000,
              'snapshots of known device states under adversarial rendering, '
              'compared with the reference state relation',
              'distinct pairs of states compared through '
              'independently rendered snapshots'),
    'C06': _m(1000, 10000,
              'reads through the faulty network compared with the state the '
              'device held when it served the request',
              'distinct (request, models, served state) '
              'extractions and refusals'),
    'C07': _m(1800, 12000,
              'concurrent callers over one real session with lost, late and '
              'failed replies, drops and notifications; the device records '
              'what it received and answered',
              'distinct (argument form, target, payload) edits, reads, '
              'errors and notification batches traced end to end'),
    'C08': _m(1600, 10000,
              'histories of scans by processes that crash or meet disk and '
              'network faults while the device is upgraded; folder and '
              'schemas compared with what the device publishes',
              'distinct folder contents accepted without downloading and '
              'distinct histories followed by a final scan and load',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C09': _m(3000, 20000,
              'downloads and re-reads of random module graphs under worker '
              'schedules and delays, compared with an independent reader of '
              'the schema texts',
              'distinct (scan kind, module graph) whose requests, files and '
              'records were compared',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C10': _m(1300, 10000,
              'scans and loads with malformed schemas, failing requests and '
              'failing files; progress within a bounded number of simulated '
              'steps and seconds',
              'distinct (scan kind, bad schemas, outcome)',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C11': _m(900, 10000,
              'histories of loads by several processes under permuted '
              'listings, load orders, cache states and hash seeds; trees '
              'compared with each other and with the generator of the '
              'sources',
              'distinct (module, schema tree) compared with the sources',
              DISKREAL, DISKSTUB, SCANASSUME, pairs=True),
    'C12': _m(1200, 10000,
              'histories of loading processes that crash at any line or in '
              'the middle of a write, or meet failing files; every later '
              'load compared with a clean compilation',
              'distinct (module, kind of load and fault) compared with a '
              'clean compilation',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C13': _m(1300, 10000,
              'several devices running releases of one schema, scanned, '
              'loaded and upgraded in many ways; verdicts on combinations '
              'compared with the generated schemas, results with a single '
              'device',
              'distinct (operation, verdict, models and releases or result)',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C20': _m(1000, 10000,
              'releases of a schema compiled, cached, reloaded and upgraded '
              'in any order; models and their differences printed again and '
              'again by one or several threads; every text compared with an '
              'independent rendering of the tree',
              'distinct texts',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C24': _m(1000, 10000,
              'two or more releases of a schema, compiled, cached, printed '
              'and upgraded in any order, compared by one or several threads; '
              'every report compared, node by node, with the two compiled '
              'trees (which C11 judges) and with the reverse comparison',
              'distinct (module, kinds and places of differences)',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C16': _m(3500, 40000,
              'a simulated CLI device prints its changing configuration in '
              'every way it may; differences compared with the lines that '
              'really changed, also when threads share one difference',
              'distinct pairs of configurations printed and compared',
              CLIREAL, CLISTUB, CLIASSUME),
    'C17': _m(3500, 40000,
              'generated commands executed by a simulated CLI device through '
              'sessions that are cut, with operators changing it; '
              'reconciliation in a bounded number of rounds',
              'distinct (configuration, target) whose commands were executed',
              CLIREAL, CLISTUB, CLIASSUME),
    'C14': _m(900, 8000,
              'client programs on several devices with related schemas, '
              'interleaved in one process by steps or by threads; each result '
              'compared with the program alone in a process of its own',
              'distinct (device, step, result)',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C19': _m(1400, 60000,
              'threads preempted at source lines work on shared snapshots of '
              'one device; each result compared with the same step alone on a '
              'fresh device',
              'distinct (step, result) obtained under concurrency'),
    'C18': _m(1500, 10000,
              'discovery against devices with every combination of sources, '
              'odd names and faults on each request',
              'distinct (sources, names, faults) discoveries compared with '
              'what the device advertises',
              DISKREAL, DISKSTUB, SCANASSUME),
    'C15': _m(900, 10000,
              'randomised deltas computed under thread interleavings and '
              'foreign use of random, sent to the reference device',
              'distinct (depth, seed, source, destination)'),
    'C22': _m(1300, 10000,
              'replies garbled on their way from the reference device, then '
              'read and compared',
              'distinct garbled replies'),
    'C23': _m(1400, 10000,
              'parts selected from snapshots that were read through the '
              'faulty network, compared with the projection of the reference '
              'state and with the answer of the device to the same selection',
              'distinct (selection, part) and node paths'),
}

NOT_APPLICABLE = {
    'C21': 'pure string functions: no concurrency, time, I/O, randomness or '
           'second party for a simulator to control',
}
