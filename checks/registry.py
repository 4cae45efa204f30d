"""Property id -> (module, function, technique)."""
CHECKS = {
    'P01': ('packing', 'p_layout', 'bit-provenance abstract interpretation of the packing functions over a symbolic symbol count'),
    'P02': ('packing', 'p_extent', 'abstract interpretation of buffer extents over a symbolic symbol count'),
    'P03': ('packing', 'p_supported', 'conditional constant propagation of the bit count through pack, unpack and the preparation of the columns'),
    'P04': ('mgr', 'p04', 'path-sensitive extraction of the sequences of header fields that are written and read, compared field by field'),
    'P05': ('mgr', 'p05', 'path-sensitive value flow from the members through the header back to the members and on to the columns'),
    'P06': ('api', 'p06', 'path-sensitive value flow from the members to the keys of the specification and back, composed over all combinations of paths'),
    'P07': ('mgr', 'p07', 'path-sensitive dominance analysis: conditions that hold on every normal return of the opening function'),
    'P08': ('cols', 'p08', 'path-sensitive value flow of positions, sizes and row indices, compared with the layout as polynomial identities'),
    'P09': ('mgr', 'p09', 'path-sensitive typestate analysis of the file stream'),
    'P10': ('conc', 'p10', 'interprocedural lockset analysis of all entry points and of the encoding threads'),
    'P11': ('conc', 'p11', 'path-sensitive typestate analysis of locks on every path of every entry point, lock-order graph'),
    'P12': ('conc', 'p12', 'path-sensitive typestate analysis of waits and notifications'),
    'P13': ('conc', 'p13', 'path-sensitive typestate analysis of the items of the write cache and of the thread life cycle'),
    'P14': ('conc', 'p14', 'path-sensitive effect analysis of the entry points under the assumption that no value was put'),
    'P15': ('numeric', 'p15', 'scalar evolution: closed forms of all indices of encoding and decoding, compared as functions of row, channel, polarization and antenna'),
    'P16': ('numeric', 'p16', 'scalar evolution: closed forms of the factors that are applied to samples and recorded in metadata, matched as functions of row, channel, polarization and antenna'),
    'P17': ('numeric', 'p17', 'scalar evolution and a domain of finite and non-finite values for every value that is accumulated over samples'),
    'P18': ('tables', 'p18', 'scalar evolution: closed forms of all entries of the tables, compared in order and position under every symmetric distribution function of a set; reaching pointers at reallocations'),
    'P19': ('tables', 'p19', 'abstract interpretation of the search with trace partitioning over the rank of the value; closed forms of the selected symbol'),
    'P20': ('api', 'p20', 'path-sensitive enumeration of the algorithms and tables that are made for every value of the settings'),
    'P21': ('api', 'p21', 'path-sensitive value flow of the request for a static seed, effect analysis of random sources'),
    'P22': ('weights', 'p22', 'scalar evolution: recurrences of the minimum, the maximum and the symbols, evaluated over a finite domain of ordered, zero, negative and non-finite weights'),
    'P23': ('msops', 'p23', 'path-sensitive abstract interpretation of the tools over abstract tables: contents, storage managers and types of columns, loops over all rows as one generic iteration'),
    'P35': ('msops', 'p35', 'path-sensitive value flow from the options on every path to the settings of the storage manager that is made'),
    'P36': ('msrows', 'p36', 'path-sensitive abstract interpretation of the loops over rows and values as one generic iteration each'),
    'P24': ('api', 'p24', 'path-sensitive effect analysis: conditions on every path with an effect, absence of effects on every path that ends with an exception'),
    'P25': ('conc', 'p25', 'path-sensitive typestate analysis of the block buffer of a column'),
    'P26': ('cols', 'p26', 'path-sensitive analysis of the conditions under which the layout is fixed and rows are added, judged on interpretations of the path conditions'),
    'P27': ('api', 'p27', 'path-sensitive effect analysis of the removal of a column, value flow of the offsets of columns after reopening'),
    'P28': ('cols', 'p28', 'path-sensitive guard analysis: the conditions on every path to a use of antenna indices imply that they are in range'),
    'P29': ('uvec', 'p29', 'path-sensitive abstract interpretation of every operation: linear inequalities over the sizes, contents as segments with symbolic bounds'),
    'P34': ('buffer', 'p34', 'scalar evolution and gating conditions: origin of every word that a function of the buffer writes, compared with the row, antenna and value it stands for, over all small shapes'),
}
DEFAULT_NOTE = ('Static analysis of the optimised-for-analysis LLVM IR of the current sources; the rule is checked on every path and '
                'instance that the analysis enumerates. Trusted: clang, the IR dumper, the rule tables of the check, and the semantics of the standard library and casacore.')
NOTES = {}
MISSED = {}   # planted changes that their check does not catch, with a remark
_P = 'no check yet'
NA = {i: _P for i in ['P%02d' % k for k in range(4, 30)] if i not in CHECKS}
NA.update({
    'P30': 'quantifies over real-valued rounding and the runtime scale factors of arbitrary blocks; no static bound in reach (the structural parts are P15, P16, P18 and P19)',
    'P31': 'termination and optimality of a data-dependent floating point iteration; not visible in the shape of the code',
    'P32': 'a statement about the distribution of runtime random numbers and floating point rounding; the structural part (range of the random number, neighbouring quantities) is in P18 and P19',
    'P33': 'the manager has no durability protocol: flush() does nothing, so there is no ordering of writes whose absence could be detected; crash consistency is not promised by the code',
})
