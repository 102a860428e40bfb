"""Parameters of the checks: workload, number of cases, and what counts as a non-trivial case."""
E_ = 'exploration'
ASSUME = ['the sanitizers of gcc 13 and the C library of this machine', 'locale C; argtable3 is used from one thread at a time, as documented',
          'preconditions: terminator capacity >= 1, non-negative limits, sub-command registry initialised before it is used']


def c(group, quick, thorough, rule, **kw):
    return dict(kind='group', group=group, quick=quick, thorough=thorough, rule=rule, level=E_, assumptions=ASSUME, **kw)


PARSE = 'a case is a random table (all entry kinds, shared name prefixes, aliases, odd letters, limits, optional values) and one or more command lines generated for it with noise; '
PROPS = {
 'C01': c('mem', 320000, 4000000, 'one in two cases is a hostile table, value, pattern or text (random bytes, huge counts and lengths, malformed formats), the others are the workloads of all other properties; non-trivial: distinct tables, values, patterns and texts that reached the library', valgrind=(2400, 40000), clangub=(24000, 400000), fuzz=900),
 'C02': c('parse', 720000, 6000000, PARSE + 'non-trivial: at least one option or positional argument was delivered, distinct by table shape and delivery trace', fuzz=300),
 'C03': c('parse', 480000, 4000000, PARSE + 'one entry is repeated around its limits; non-trivial: distinct table shapes and results', fuzz=300),
 'C04': c('parse', 720000, 6000000, PARSE + 'many erroneous arguments, small capacities; non-trivial: distinct error records', fuzz=300),
 'C05': c('parse', 600000, 5000000, PARSE + 'vector and strings are compared with copies, stored pointers with the vector; non-trivial: distinct shapes'),
 'C06': c('parse', 240000, 3000000, PARSE + 'the result of a parse after a history of other parses is compared with the result in a fresh state; non-trivial: distinct histories'),
 'C07': c('val', 1200000, 10000000, 'a case is a batch of texts near the integer grammar and its limits, checked against an independent 128-bit reference; non-trivial: distinct texts', fuzz=300),
 'C08': c('val', 1200000, 10000000, 'a case is a batch of texts near the number grammar, checked bit for bit against the C library on the whole text; non-trivial: distinct texts', fuzz=120),
 'C09': c('val', 1200000, 10000000, 'a case is a batch of random path-like texts, checked against an independent splitter; non-trivial: distinct texts', fuzz=120),
 'C10': c('val', 200000, 5000000, 'a case is a random pattern with texts inside, near and outside its language, checked against an independent matcher over sets of positions; non-trivial: distinct pattern and text pairs', fuzz=300),
 'C11': c('val', 900000, 8000000, 'a case is a random format with texts near it, checked against an independent reference parser; non-trivial: distinct format and text pairs', fuzz=300),
 'C12': c('parse', 720000, 6000000, PARSE + 'mostly positional; non-trivial: distinct distributions of positional arguments', fuzz=300),
 'C13': c('parse', 360000, 3000000, PARSE + 'each line is rewritten into an equivalent spelling and both results are compared; non-trivial: distinct rewritten lines'),
 'C14': c('parse', 600000, 5000000, PARSE + 'the call-backs of every entry are logged and the log is checked against the protocol; non-trivial: distinct logs'),
 'C15': c('text', 600000, 5000000, 'a case is a random table whose usage lines are compared with an independent rendering, on stream and dynamic string; non-trivial: distinct tables', fuzz=120),
 'C16': c('text', 600000, 5000000, 'a case is a random table whose glossaries are compared with an independent rendering and checked for columns; non-trivial: distinct tables', fuzz=120),
 'C17': c('text', 900000, 8000000, 'a case is a random text and margins; the lines are checked against the text by an independent checker; non-trivial: distinct texts and margins', fuzz=300),
 'C18': c('text', 900000, 6000000, 'a case is a table, a line with errors and the messages printed, compared with an independent rendering; non-trivial: distinct messages'),
 'C19': c('ds', 900000, 8000000, 'a case is a random sequence of operations on dynamic strings, checked after each one against an ordinary string and an ownership record; non-trivial: distinct sequences', fuzz=300),
 'C20': c('ds', 120000, 1500000, 'a case is a random sequence of registry operations checked against a map; non-trivial: distinct sequences'),
 'C21': c('text', 600000, 4000000, 'a case is a table, a parse and the composed help and error messages, compared with an independent composition; non-trivial: distinct messages'),
 'C22': dict(kind='oom', quick=6000, thorough=120000, rule='a case is a scenario (build, parse, print, strings, registry, sorting); each of its allocations (sampled above 40) is made to fail once in a process of its own; non-trivial: distinct failing points', level='fault_enumeration', assumptions=ASSUME),
 'C23': c('mem', 320000, 3000000, 'a case is the life of a table (parses, errors, prints, messages, release) or of a registry, under a ledger of every allocation of the library; non-trivial: distinct lives'),
 'C24': c('parse', 480000, 4000000, PARSE + 'slots hold random defaults before the parse; every slot is compared; non-trivial: distinct shapes', fuzz=300),
 'C25': c('ds', 600000, 5000000, 'a case is a random array, element size, range and comparison; guarded on both sides; non-trivial: distinct arrays'),
 'C26': dict(kind='forms', quick=40000, thorough=800000, rule='the same random tables, lines, texts and other operations on the library built from separate sources, as a single file, as a release build and by another compiler (all results hashed and compared), and plain lines on the platform option scanner; non-trivial: distinct results', level=E_, assumptions=ASSUME),
 'C27': c('hash', 600000, 5000000, 'a case is a random sequence of container operations with good and colliding hash functions, checked against a map, with iterators; non-trivial: distinct sequences', fuzz=300),
 'C28': c('parse', 300000, 4000000, PARSE + 'with POSIXLY_CORRECT set or not, changing between parses, and on the library built with ARG_LONG_ONLY with one or two dashes before long names; non-trivial: distinct table shapes, modes and results', longonly=True, fuzz=120),
 'C29': c('getopt', 4000000, 60000000, 'a case is a few scans of random vectors with random option letters and long options (all three functions, order modes, restarts, abandoned scans), each call compared with an independent plan of the whole scan; non-trivial: distinct sequences of results', fuzz=300),
}
