prop('C01', 'An accepted delta moves the device exactly to its destination',
     'When a delta computed between two snapshots is sent as an edit to a device whose datastore is in the '
     'source state, a standards-conforming device accepts it and its configuration afterwards is exactly the destination state. '
     'This holds for the minimum and the replace delta styles, for every choice of preferred create, replace and delete '
     'operation, for any replace depth, and for user-ordered lists and leaf-lists, choices, defaults, presence containers, '
     'identity references and nodes augmented from other modules. '
     'It keeps holding when replies are lost, the session drops or other operators edit the device in between, as long as '
     'the edit lands on the source state. '
     'Minimum deltas use no operations other than the preferred ones and merge. An edit made with merge or replace and remove as the preferred operations can be delivered twice without harm; with '
     'create or delete as the preferred operation, the second delivery of an edit that creates or deletes is refused.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every pair of valid configuration states of a schema, every delta option combination, and every history of '
     'operator edits, device restarts and network faults in which the edit lands on the source state.',
     'Tests compare the XML of a few dozen hand-written deltas with expected text; none applies a delta to a device, so an '
     'unexpected state pair or option combination is never executed.',
     ['config.py', 'netconf.py', 'calculator.py', '__init__.py'],
     [('NetconfCalculator.node_sub / get_config_replace', 'netconf.py'),
      ('set_create_operation / set_delete_operation', 'netconf.py'),
      ('choice/case bookkeeping and insert attributes', 'netconf.py'),
      ('ConfigDelta.nc', 'config.py')],
     observe=['device datastore after edit-config', 'rpc-reply of edit-config'])

prop('C02', 'Predicted result of an edit equals what the device does',
     'Adding a delta, an edit payload or another snapshot to a snapshot yields exactly the configuration that a '
     'standards-conforming device in that state would have after accepting the corresponding edit. '
     'When the device would reject the edit because a node to delete is missing, a node to create already exists, an '
     'insertion point is missing, or an operation or insertion is unknown, the addition raises the delta error instead of returning a configuration. '
     'This holds at whatever state the edit really lands, including states other operators produced after the delta was computed.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every base state, every edit payload made of merge, create, replace, delete and remove operations and insertions, '
     'and every interleaving of concurrent operators that changes the state the edit lands on.',
     'Tests add a handful of deltas to the very snapshot they came from; stale deltas, duplicated requests and mixed '
     'operations on an arbitrary state are not sampled.',
     ['config.py', 'netconf.py', 'calculator.py'],
     [('NetconfCalculator.node_add and the _node_add_* family', 'netconf.py'),
      ('Config.__add__', 'config.py')],
     observe=['result of snapshot + edit', 'ConfigDeltaError', 'device datastore', 'rpc-error tag'])

prop('C03', 'Diffs invert and closed-loop reconciliation converges',
     'For any two snapshots, the difference is empty exactly when they hold the same state, source plus difference gives '
     'the destination, and applying the negated difference takes the destination back to the source. '
     'A client that repeatedly reads the device, computes the difference to its goal and sends it reaches the goal within two '
     'rounds once faults and other operators stop, and then sees an empty difference.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every pair of states and every history of lost replies, duplicated edits, session drops, device restarts and '
     'competing operators before the faults stop.',
     'Round trips are tested on a few fixtures; convergence after lost replies, partially known outcomes and concurrent '
     'edits is never executed.',
     ['config.py', 'netconf.py', 'calculator.py', 'manager.py'],
     [('ConfigDelta.__neg__ / __bool__', 'config.py'), ('Config.__sub__ / __add__', 'config.py')],
     observe=['delta truth value', 'device datastore after each round'])

prop('C04', 'Snapshots and edit payloads are never modified by using them',
     'Computing, applying, negating, comparing, rendering or sending differences never changes the content of any snapshot '
     'taken earlier, of the edit payload passed in, of the received reply, or of the loaded schema, whether the operation '
     'succeeds or fails. '
     'The same difference evaluated again later gives the same edit.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'For every sequence of snapshot, difference and device operations, including ones that raise or time out, in every order '
     'and from several threads.',
     'A test asserts one result after one operation; it does not re-check every older snapshot after every later operation '
     'or failure.',
     ['config.py', 'netconf.py', 'calculator.py', 'manager.py'],
     [('deepcopy of both operands before calculation', 'netconf.py'), ('NetconfParser copies the reply', 'netconf.py')],
     state=[('Config.ele', 'content of a snapshot', 'config.py')],
     observe=['serialised snapshots before and after each step'])

prop('C05', 'Comparing snapshots follows device state, not its rendering',
     'Two snapshots of the same state compare equal, and have an empty difference, however the device happened to render each reply: '
     'namespace prefixes and where they are declared, white space between elements, order of siblings and of system-ordered '
     'entries, and default values reported or left out. '
     'Two snapshots of different states never compare equal, and the ordering comparisons hold exactly when one state contains '
     'the other, with user-ordered entries in the same relative order.',
     ['inputs', 'histories', 'configurations'],
     'For every pair of states and every pair of legal renderings the device may choose for each reply.',
     'Fixtures use one rendering per state; the space of legal renderings of one state is not sampled.',
     ['calculator.py', 'config.py', 'ref.py', 'netconf.py'],
     [('BaseCalculator._node_le / _pair_children / _parse_text', 'calculator.py'), ('Config._trim_defaults', 'config.py'),
      ('IdentityRef / InstanceIdentifier', 'ref.py')],
     observe=['==, !=, <=, >=, <, > between snapshots', 'truth value of the difference'])

prop('C06', 'Extracted config is exactly the writable state of the asked models',
     'A snapshot extracted from a get or a get-config reply holds exactly the configuration the device had when it served '
     'the request, restricted to the requested models, without any read-only or obsolete data and without deprecated data when '
     'that is asked for. '
     'Requesting by model name retrieves exactly the readable (or writable) top-level nodes of those models, and naming a model '
     'that is not loaded or has no such node is refused before anything is sent.',
     ['inputs', 'histories', 'schedules'],
     'For every state, every subset of loaded models, both kinds of request, and every moment at which the device serves the '
     'request while its state is changing.',
     'Tests extract from a few canned replies and never compare the result with the state of the device that produced it.',
     ['manager.py', 'config.py', 'netconf.py', 'composer.py'],
     [('ModelDevice.execute filter building', 'manager.py'), ('ModelDevice.extract_config', 'manager.py'),
      ('Config._validate_node', 'config.py')],
     observe=['request filter received by the device', 'extracted snapshot'])

prop('C07', 'Requests and replies cross the wire intact and reach their caller',
     'The edit the device receives is element for element, namespace for namespace and attribute for attribute the payload '
     'the caller passed, addressed to the datastore the caller named or else to the running datastore when the device only '
     'supports writing that one and to the candidate otherwise. '
     'A read asks for exactly the top-level nodes of the models, or the filter, and the datastore the caller named (the running one '
     'if none is named), and its answer arrives element for element; a read that names a model not loaded or without data is '
     'refused before anything is sent. '
     'Each caller receives the reply to its own request, or an exception within its timeout when the reply is lost, late or '
     'the session drops, and never a reply meant for another request. '
     'Every namespace used in a reply or notification is reachable through the prefix mapping attached to it.',
     ['inputs', 'schedules', 'fault_sequences'],
     'For every payload, every interleaving of concurrent requests on one session, and every pattern of delayed, reordered, '
     'duplicated or lost messages and session drops.',
     'The tests never run a transport: sending is patched out and replies are canned.',
     ['__init__.py', 'manager.py'],
     [('replacement of message wrapping and edit-config building', '__init__.py'),
      ('ModelDevice.execute / _get_ns / take_notification', 'manager.py')],
     observe=['bytes sent on the simulated session', 'reply or exception seen by each caller'])

prop('C08', 'A schema folder is reused only when it is complete and faithful',
     'When a scan in checking mode skips downloading, the folder holds, byte for byte, every schema the device hands out for its '
     'current capabilities, whatever process crashes, disk errors, lost replies, session drops or device upgrades happened in earlier scans. '
     'After faults stop, one more checking scan followed by loading succeeds and gives the same schema as a scan into an empty folder.',
     ['crash_points', 'fault_sequences', 'histories', 'schedules'],
     'For every crash point, torn write, disk error, network fault and device upgrade in a sequence of scans of one folder.',
     'Tests use a prepared folder and never download, crash or fail a write.',
     ['model.py', 'manager.py'],
     [('capabilities.txt as commit record', 'model.py'), ('ModelDownloader.download_all ordering', 'model.py')],
     state=[('capabilities.txt', 'says which capabilities the folder content belongs to', 'model.py'),
            ('dependencies.xml', 'cached dependency graph', 'model.py')],
     observe=['folder content', 'whether schemas are requested again', 'compiled schema'])

prop('C09', 'A scan handles every schema exactly once under any worker schedule',
     'A successful scan requests each schema the device lists, and each schema those refer to, exactly once, stores each under its '
     'name, and records each module once with its true prefix, namespace, imports, includes, revisions, augments and deviations. '
     'The result, both after downloading and after re-reading an existing folder, is the same set for every interleaving of the workers.',
     ['schedules', 'inputs', 'fault_sequences'],
     'For every interleaving of the worker threads and reply delays, and every import/include graph.',
     'One test run sees one schedule, and the tests run no downloads at all.',
     ['model.py', 'manager.py'],
     [('DownloadWorker / ContextWorker queues', 'model.py'), ('CompilerContext.update_dependencies', 'model.py'),
      ('ModelDownloader.download', 'model.py')],
     observe=['get-schema requests seen by the device', 'dependency graph', 'namespaces of the device'])

prop('C10', 'Scanning and loading always return',
     'Scanning a device or an existing folder finishes in bounded time, returning or raising, under every worker schedule and '
     'whatever fails: undecodable, empty or malformed schemas, schemas that import or include each other in a cycle or refer to '
     'absent ones, device errors, lost replies, dropped sessions and disk errors. '
     'One bad schema never prevents the others from being stored and recorded.',
     ['schedules', 'fault_sequences', 'inputs'],
     'For every worker interleaving, every fault at every request or file operation, and every malformed schema among good ones.',
     'A hang needs a particular failure in a particular thread; the tests have no failing workers.',
     ['model.py', 'manager.py'],
     [('queue join and task_done accounting', 'model.py')],
     observe=['completion of scan and load within a bounded number of simulated steps', 'recorded modules'])

prop('C11', 'A compiled schema depends only on the schema sources',
     'Loading a module gives the same schema tree, and device namespaces, whatever order files were listed in, whatever hash '
     'seed the process runs with, whichever worker finished first, which modules were loaded before it, and whether it was compiled '
     'now or read back from the folder cache. '
     'The tree describes each data node with the type, access, keys, presence, ordering, defaults, enumeration and identity values its '
     'source gives it. '
     'The schema node found for a data node, and the defaults that apply below a schema node, are those of the tree loaded last, also '
     'when the same device object has scanned other sources before.',
     ['configurations', 'histories', 'schedules', 'inputs'],
     'For every permutation of file listing, hash seed, worker schedule and load order over every set of modules.',
     'Tests compile in one fixed order under one hash seed and compare a few attributes.',
     ['model.py', 'manager.py'],
     [('ModelCompiler.compile / depict_a_schema_node', 'model.py'), ('identity bookkeeping', 'model.py'),
      ('module cache files', 'model.py')],
     observe=['loaded model trees', 'namespaces'])

prop('C12', 'Crashes and torn cache files never corrupt a loaded schema',
     'If the process dies or a write fails at any point while compiling and caching, later loads from the same folder either '
     'raise or produce the same schema tree as a clean compilation, and the first fault-free load succeeds. '
     'No partially written cache is ever taken for a complete one.',
     ['crash_points', 'fault_sequences', 'histories'],
     'For every crash point and every short, torn or failed write while dependency and module caches are written, over several '
     'incarnations.',
     'Tests never interrupt a write.',
     ['model.py'],
     [('read_xml rejects unparsable caches', 'model.py'), ('write_xml', 'model.py')],
     state=[('<module>.xml', 'cached compiled model', 'model.py')],
     observe=['loaded model trees after restart'])

prop('C13', 'Snapshots combine only across devices with identical schemas',
     'Differences and sums between snapshots of two devices, or of one device before and after an upgrade, are computed when the models involved have '
     'identical schemas, prefixes and namespaces on both, however each device was scanned and loaded. '
     'They are refused with the missing-model error when a side has not loaded a model involved, and with the incompatible-model error '
     'when a data node, its type, default, keys, ordering or presence, or the prefix or namespace of a model involved differs.',
     ['histories', 'inputs', 'configurations'],
     'For every pair of devices and every history of scans, loads, reconnects and upgrades on either side.',
     'Tests compare two devices loaded the same way from the same prepared folder.',
     ['config.py', 'model.py', 'manager.py'],
     [('ConfigCompatibility', 'config.py'), ('ModelDiff', 'model.py')],
     observe=['success or exception of cross-device operations'])

prop('C14', 'Devices used side by side in one process do not affect each other',
     'Results obtained from a device (schemas, namespaces, snapshots, differences, edits sent) are the same whether it is the only '
     'device in the process or is used interleaved with other devices that have other schemas, the same module names with other '
     'revisions, or clashing prefixes. ',
     ['schedules', 'histories', 'configurations'],
     'For every interleaving of scans, loads, reads, differences and edits on several devices, in one or several threads.',
     'Tests share one process but never compare a device with an isolated twin.',
     ['manager.py', 'model.py', 'config.py', '__init__.py'],
     [('per-instance models, nodes and namespaces', 'manager.py'), ('per-instance compiler context', 'model.py')],
     observe=['results of the interleaved run compared with an isolated run of the same operations'])

prop('C15', 'Seeded randomised deltas are reproducible and still correct',
     'A delta randomised with a given depth and seed is the same edit every time and in every thread, whatever else in the program '
     'draws random numbers, and computing it does not disturb the random numbers the rest of the program sees. '
     'It contains the same operations as the plain delta in another order, list keys stay first, and a device in the source '
     'state that accepts it ends in the destination state. ',
     ['schedules', 'inputs', 'histories'],
     'For every delta, depth and seed and every interleaving with other threads computing randomised deltas or drawing random numbers.',
     'Tests call it from one thread and compare with recorded output.',
     ['config.py'],
     [('ConfigDelta.reorder / reorder_children', 'config.py'), ('random_seed property', 'config.py')],
     observe=['edit payload', 'state of the global random generator', 'device datastore'])

prop('C16', 'Equivalent renderings of one CLI config give no running-config diff',
     'Two printouts of the same CLI configuration state never show a difference: header and comment lines, blank lines, trailing white '
     'space, indentation width, long or short section exits, and the order in which neighbouring commands known to be orderless are '
     'printed may differ between them. '
     'If anything else differs - a command added, removed, changed, or two order-sensitive commands swapped - the difference is not '
     'empty, and the lines it shows as added and removed are, net, exactly the lines that were added and removed, each in its section; '
     'the reverse difference shows the opposite. The answers are the same when several threads ask one difference object.',
     ['inputs', 'histories', 'configurations', 'schedules'],
     'For every configuration and every pair of printouts that a device may choose for it over time, and every interleaving of threads '
     'that share a difference.',
     'Tests contain a fixed set of hand-picked printouts.',
     ['runningconfig.py'],
     [('handle_orderless / config2list', 'runningconfig.py'), ('ListDiff.compare', 'runningconfig.py')],
     observe=['truth value, text and list of the running-config difference'])

prop('C17', 'Sending the generated CLI moves a CLI device to the target config',
     'Sending the generated command lines to a device in the first configuration brings it to the second without a refused line, and '
     'the reverse lines bring it back, where the device follows plain CLI rules: a line adds itself and replaces a shorter form of '
     'itself (fewer words), a line with no removes the line (and its section) it names and longer forms of it, a section header enters '
     'the section, a command printed after a section may depend on it, and the device prints lines in an order of its own. '
     'If sending is cut off after any line, reading the device again, recomputing and resending reaches the target once the faults stop.',
     ['inputs', 'crash_points', 'histories', 'fault_sequences'],
     'For every pair of hierarchical configurations and every point at which the session is cut while sending.',
     'Tests compare the text of the commands with expected text and never execute them against a device.',
     ['runningconfig.py'],
     [('list2cli', 'runningconfig.py'), ('ListDiff.compare', 'runningconfig.py')],
     observe=['configuration of the simulated CLI device'])

prop('C18', 'Model discovery reports exactly what the device advertises',
     'The list of loadable models is, sorted, exactly what the device publishes through its schema list when that can be read, '
     'otherwise what its module library publishes when that can be read, and otherwise every module named in its capabilities. '
     'Errors, timeouts or session drops on one source fall through to the next, and a failed discovery never leaves a partial list behind.',
     ['inputs', 'fault_sequences', 'histories'],
     'For every set of module names, every combination of advertised sources, and every fault on each of the requests.',
     'Tests preset the list and never query a device.',
     ['manager.py'],
     [('ModelDevice.models_loadable', 'manager.py')],
     observe=['models_loadable'])

prop('C19', 'Threads sharing a device get the results of a sequential run',
     'When several threads share one loaded device and compute snapshots, differences, sums, comparisons and edits at the same time, '
     'each gets exactly the result it would get alone, without spurious errors, for every interleaving. ',
     ['schedules', 'inputs'],
     'For every interleaving, down to source lines, of threads working on shared snapshots of one loaded device.',
     'Tests are single threaded.',
     ['manager.py', 'config.py', 'calculator.py', 'netconf.py', 'composer.py'],
     [('per-device node cache and namespaces', 'manager.py'), ('per-calculation copies', 'netconf.py')],
     state=[('ModelDevice.nodes', 'schema node cache shared by all threads', 'manager.py')],
     observe=['results and exceptions in each thread'])

prop('C22', 'Data that contradicts the schema is refused, not half-processed',
     'A reply, or text given as a config, that contains a node the loaded models do not define, a list entry without one of its keys, or '
     'an edit attribute (operation, insert, value, key) is refused with a library error when it is read. One that repeats a list entry, '
     'a list key or a leaf is at the latest refused when it is used: it never compares equal to the proper data, and no delta or sum is '
     'computed from it. A refusal is a ConfigError or ModelMissing, leaves nothing behind, and the next proper reply is read correctly.',
     ['inputs', 'fault_sequences', 'histories'],
     'For every schema, state and rendering, every way of garbling the reply listed above at every place, mixed with transport faults '
     'and proper replies.',
     'Tests contain almost no malformed data.',
     ['config.py', 'calculator.py', 'manager.py', 'composer.py'],
     [('Config.validate_config / _validate_node', 'config.py'), ('BaseCalculator._pair_children / _is_peer', 'calculator.py'),
      ('ModelDevice.get_schema_node', 'manager.py')],
     observe=['exceptions', 'truth of comparisons', 'later snapshots'])

prop('C23', 'A part selected from a snapshot is the part the device would return',
     'Filtering a snapshot by a path expression gives a new snapshot with exactly the selected nodes and all they contain, their '
     'ancestors and the keys of the list entries on the way: the same configuration that the device returns when it is asked '
     'for that selection. '
     'The part is contained in the snapshot, does not depend on how the device rendered the state, and the snapshot '
     'stays as it was. '
     'Replies can be searched in the same way, and the path, schema node and model reported for a node of a snapshot lead back to that node.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every state, rendering and selection (absolute and descendant steps, predicates on keys, values, existence and '
     'position, unions, values with quotation marks), and every history of faults and other operators between reading and selecting.',
     'Tests filter a few fixtures by one path each; no device answers the same selection and no other rendering of the same state is tried.',
     ['config.py', 'composer.py', 'manager.py', '__init__.py'],
     [('Config.filter / xpath / _node_filter', 'config.py'), ('Composer.get_xpath', 'composer.py'),
      ('get_xpath, get_schema_node, get_model_name', 'manager.py'), ('xpath_rpcreply', '__init__.py')],
     observe=['result of filter()', 'reply of the device to an xpath filter', 'nodes selected by a path'])

prop('C24', 'The comparison of two releases of a model names exactly what changed',
     'Comparing two models (two releases of a device, or the same release loaded in different ways) reports a difference if and only '
     'if a node was added or deleted or a property of a node (type, default, keys, ordering, presence, access, ...) differs. '
     'The difference tree, its text and its added, deleted and modified parts name exactly these nodes, each below its ancestors; '
     'the reverse comparison swaps added and deleted; '
     'neither model is changed by the comparison, and every report is the same whenever, how often and in whichever thread it is asked for.',
     ['histories', 'schedules', 'inputs'],
     'For every pair of releases and every history of compilations, caches, upgrades, printed reports and threads sharing one comparison.',
     'Tests compare two fixtures once and look at a few lines of the text.',
     ['model.py'],
     [('ModelDiff', 'model.py'), ('Model.emit_tree, get_name_str', 'model.py')],
     observe=['ModelDiff truth, tree, str, added, deleted, modified, compare()', 'models after the comparison'])

prop('C20', 'Texts of models and of their differences show the whole schema',
     'Printing a model, or the difference of two, or its added, deleted and modified parts, shows every node once, in order, with its '
     'position in the tree, flags, name, keys, type and if-features (or what happened to it), aligned, data before rpcs before '
     'notifications. '
     'The text does not depend on what was printed or loaded before, how often it is asked for, or which threads ask at the same time, and '
     'printing does not change the model.',
     ['histories', 'schedules', 'inputs'],
     'For every schema, pair of releases, history of loads, caches and printouts, and every interleaving of threads that print.',
     'Only a few printed trees are compared, each printed once by one thread.',
     ['model.py'], [('Model.emit_tree, get_width, get_name_str', 'model.py'), ('ModelDiff.emit_children, trim', 'model.py')],
     observe=['str(model)', 'str(diff), added, deleted, modified'])

prop('C21', 'Name and path notations convert into each other without loss',
     'Converting identifiers and paths between the supported notations keeps their meaning, and the path of a node selects that node.',
     ['inputs'], 'For every node and notation.', 'Only a few paths are compared.',
     ['manager.py', 'composer.py'], [('convert_tag, get_xpath', 'manager.py')], observe=['converted strings'])
