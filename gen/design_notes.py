NOTES = {
 'M02': 'Exceptions, by construction of the inference and not by name of the failing site: values that mean "not found", comparators, hash functions, print functions and registration. '
        'Nine genuine defects were found and repaired (see the end).',
 'M03': 'A comparison result is believed path by path; a NULL that is stored and read elsewhere is M02\'s business because the operation then has to fail.',
 'M07': 'The memo of function names (`mr_serialize_func`, off unless asked for) is the documented exception. The lookup tables of the readers had to be repaired: they used to be filled without a flag.',
 'M09': 'An element of an array of texts is covered by the separation rule (every element node gets its own size), because the recorded size is then what readers are limited by.',
 'M10': 'Loops that walk links (next, parent, left, right) are not judged: that links are valid indexes is an invariant of run-time data. Table sizes come from the types, recorded sizes from the loads that dominate the access.',
 'M11': 'Growth summaries name the array by the chain of fields from the arguments, so growing one list does not make pointers into another stale.',
 'M12': 'A call that both releases on failure and keeps on success is split into its outcomes; what a failing callee does to the block (keeps, drops, sometimes) is itself inferred. Streams that write into a growing array they were given count as its filler.',
 'M13': 'Positions are representatives, not values: no path is handed to a solver and nothing of the library is run. A callee with a loop or a store outside its frame stays one uninterpreted quantity of its arguments; hashing of blocks is understood as depending on every byte of the block.',
}
TAIL = '''
## Genuine defects found and repaired

Each is a separate `fix:` commit in `/repo`; `known_findings.json` lists them. There are no unrepaired known findings.

## False alarms met on the way

While the checks were built each report on the unchanged tree was traced by hand. Reports that were the analysis' fault led to changes of the analysis
(never to exceptions by file or line): correlated conditions (path facts), blocks handed over through a container (ownership of containers), error exits
where the callee had already released (habits), union members seen at two offsets (field names from debug info), visitors called through a common context pointer.
'''
