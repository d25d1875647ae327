# property -> harness sources, library flavour, and what MANIFEST.json says about the check
NET = ['mc.cpp', 'net.cpp', 'fullnet.cpp']
CHECKS = {
    'C13': {'sources': ['c13.cpp', 'mc.cpp'],
            'technique': 'stateless explicit-state exploration of UndirectedGraph against a reference multigraph; exhaustive small graphs for traversals and paths',
            'note': 'All operation sequences up to depth 4 (quick) / 5 (thorough) from three start graphs, with and without intermediate queries; all multigraphs up to 4 vertices and 4-5 edges with every traversal decision and path rule.'},
    'C05': {'sources': ['c05.cpp', 'topo.cpp'] + NET,
            'technique': 'explicit-state exploration of operation histories on bus/breaker voltage levels in lock step with a reference topology model; exhaustive small topologies',
            'note': 'All sequences of edits (depth 3, quick) and of edits interleaved with variant operations (depth 4) with and without intermediate queries, in every variant; all switch states and equipment patterns on 4 buses.'},
    'C06': {'sources': ['c06.cpp', 'topo.cpp'] + NET,
            'technique': 'explicit-state exploration of operation histories on node/breaker voltage levels in lock step with a reference topology model; exhaustive small topologies',
            'note': 'All sequences of edits (depth 3, quick) and of edits interleaved with variant operations (depth 4) with and without intermediate queries, in every variant, both bus levels; all switch states and equipment patterns on a 5 node cycle.'},
    'C08': {'sources': ['c08.cpp', 'topo.cpp'] + NET,
            'technique': 'explicit-state exploration of operation histories on networks of both kinds in lock step with a reference model of components; exhaustive small link patterns',
            'note': 'All sequences of edits (depth 3, quick) and of edits interleaved with variant operations (depth 4) with and without intermediate queries, in every variant; all sets of links between six buses.'},
    'C01': {'sources': ['c01.cpp', 'state.cpp'] + NET,
            'technique': 'explicit-state exploration of variant histories of a complete network; each variant compared with a network that never had variants',
            'note': 'All histories up to depth 3 (quick) / 4-5 (thorough) of 16 variant, write and structural operations from five start histories, observing the complete network in every variant.'},
    'C02': {'sources': ['c02.cpp'] + NET,
            'technique': 'explicit-state exploration of variant management histories in lock step with a model of variant names, working variant and values',
            'note': 'All histories up to depth 3 (quick) / 4 (thorough) of 32 clone, overwrite, remove, select, write, thread-mode and for-each requests, accepted or not, from five start histories.'},
    'C04': {'sources': ['c04.cpp', 'kinds.cpp'] + NET,
            'technique': 'explicit-state exploration of creation, alias and removal histories for every kind of object, in lock step with a model of the names',
            'note': 'For each of 22 kinds of objects, all histories up to depth 3-4 (quick) / 4 (thorough) of 22 creation, alias and removal requests over a pool of colliding names.'},
    'C14': {'sources': ['c14.cpp', 'kinds.cpp'] + NET, 'flavour': 'asan',
            'technique': 'explicit-state exploration of addition and removal histories under AddressSanitizer, compared with the state before the additions and with an independent rule of what may be removed',
            'note': 'All ordered pairs of 22 kinds of objects added and removed, all subsets of 10 features of a substation removed in 4 ways, every object (thorough: every pair) of a complete network, and the complete network emptied from every starting object.'},
    'C07': {'sources': ['c07.cpp', 'topo.cpp'] + NET,
            'technique': 'exhaustive enumeration of small switch graphs and explicit-state exploration of connection histories, judged by reachability in a reference model of the switches',
            'note': 'All graphs of 6 links of 6 kinds (quick) / 8 kinds (thorough) on five shapes with connect/disconnect/connect sequences; all histories of 27 requests, switch and variant operations up to depth 3 (quick) / 4 (thorough), in every variant.'},
    'C17': {'sources': ['c17.cpp', 'topo.cpp'] + NET,
            'technique': 'explicit-state exploration of addition and removal histories in lock step with a model of the inventory; every list, count, lookup and visitor compared in every state',
            'note': 'All histories up to depth 3 (quick) / 4 (thorough) of 39 additions, removals and connections from an empty and a busy network with both topology kinds.'},
    'C16': {'sources': ['c16.cpp', 'state.cpp', 'topo.cpp'] + NET, 'flavour': 'asan',
            'technique': 'explicit-state exploration of histories with moves at every point under AddressSanitizer; each compared with the same history without moves, or with a reference topology model',
            'note': 'All histories up to depth 3 (quick) / 4 (thorough) of 19 requests with at least one move from six start histories of a complete network; all topology histories of 22 requests up to depth 3 (quick) / 4 (thorough).'},
    'C27': {'sources': ['c27.cpp', 'topo.cpp'] + NET,
            'technique': 'exhaustive enumeration of starting points, visitor decisions, switch states and small switch graphs, and explicit-state exploration of histories, judged by reachability in a reference topology model',
            'note': 'Every starting terminal of a 13 terminal network x every set of refused terminals x 32 (quick) / 128 (thorough) switch states; all switch graphs of 6 (quick) / 7 (thorough) links of 5 kinds on 5 nodes; histories of 24 requests up to depth 2 / 3 with every traversal and visit in every variant.'},
    'C09': {'sources': ['c09.cpp', 'refs.cpp', 'features.cpp', 'state.cpp'] + NET,
            'technique': 'exhaustive enumeration of the combinations of optional features of each kind of equipment; each network exported, read back, compared and exported again',
            'note': 'All accepted combinations of the choices of 25 feature spaces, of names, aliases and properties of 21 kinds of objects, of the options of a complete network, and of variants.'},
    'C24': {'sources': ['c24.cpp', 'refs.cpp', 'features.cpp', 'state.cpp'] + NET,
            'technique': 'exhaustive enumeration of the combinations of optional features of each kind of equipment, exported to every older version with both behaviours, judged by an independent table of what each version has no place for',
            'note': 'All accepted combinations of the choices of 25 feature spaces, identities of 21 kinds of objects and complete networks x 5 older versions x refuse/log; all versions of a versioned extension; all listed namespaces.'},
    'C15': {'sources': ['c15.cpp', 'refs.cpp', 'features.cpp', 'state.cpp'] + NET,
            'technique': 'exhaustive enumeration of feature combinations, names and mapping sizes, each anonymised document compared token by token with the plain one and imported with and without its mapping; explicit-state exploration of anonymizer histories',
            'note': 'All accepted combinations of the choices of 25 feature spaces, identities of 21 kinds of objects, complete networks at every topology level; all names up to 3 characters of a 15 letter alphabet; code-length boundaries; all anonymizer histories up to depth 4 (quick) / 6 (thorough).'},
    'C25': {'sources': ['c25.cpp', 'refs.cpp', 'features.cpp', 'state.cpp', 'topo.cpp'] + NET,
            'technique': 'exhaustive enumeration of switch positions, equipment patterns and feature combinations and explicit-state exploration of histories, each network exported at both coarser levels and read back, judged by the buses and components of the original',
            'note': 'All positions and retained flags of the switches of a two level network, all equipment patterns on a 4 node cycle, all histories of 22 requests up to depth 3 (quick) / 4 (thorough) in every variant, 25 feature spaces, identities and complete networks, at bus/breaker and bus level.'},
    'C26': {'sources': ['c26.cpp', 'features.cpp', 'state.cpp'] + NET,
            'technique': 'exhaustive enumeration of short texts over an adversarial alphabet in every text position, of boundary numbers in every numeric position and of dates; each network exported and read back; an independent decoder decides what can be represented',
            'note': 'All texts up to 2 characters of a 35 character alphabet in some 170 text positions and up to 3 (thorough: 4) in the XML streams; 40 boundary numbers in some 150 numeric positions; every sign and exponent with 12 (thorough: 162) mantissas in the streams; integers; 5200 dates.'},
    'C28': {'sources': ['c28.cpp', 'features.cpp', 'state.cpp'] + NET,
            'technique': 'exhaustive enumeration of option values, selections of extensions and asked versions, and explicit-state exploration of the requests on the options; each document is predicted from the one written without options',
            'note': 'All combinations of the values of the nine export properties and of the import ones; all sequences of 22 requests up to depth 3 (quick) / 4 (thorough); complete networks x topology level x version x anonymised x indentation x branch state variables x every single, pair and complement of extensions; all asked versions of extensions x document versions; unknown and unwritable extensions.'},
    'C29': {'sources': ['c29.cpp', 'state.cpp'] + NET,
            'technique': 'explicit-state exploration of the real library: every setter of every object of a complete network x values x variants, and ordered pairs of them; the whole observation of both variants before and after',
            'note': 'Every attribute of every object of a network holding every kind of equipment, 2 to 6 values, two variants, its repetition and its reversal; ordered pairs of modifications of one object (thorough: all values, all placements in variants).'},
    'C18': {'sources': ['c18.cpp', 'features.cpp', 'state.cpp'] + NET,
            'technique': 'fault enumeration: a write fault of every kind injected at every byte offset of the exported document, its file and its mapping, on the real library',
            'note': '7 kinds of stream faults and limited files at every byte of the documents of two small networks in 4 export modes, at every byte (thorough) or at the 64 first and last, chunk boundaries and every 499th byte (quick) of a complete network and one with long texts; mapping files limited at every byte; bad streams and impossible places.'},
    'C10': {'sources': ['c10.cpp', 'features.cpp', 'state.cpp'] + NET, 'flavour': 'asan',
            'technique': 'fault enumeration: every truncation and every single damage of an element, attribute, value or byte of reference documents, imported by the real library under AddressSanitizer; every accepted network is observed, written, read again and emptied',
            'note': 'Truncation at every byte of complete documents; 19 damages, all renamings and all moves of one element of each kind (thorough: every element); 5 damages, 55 hostile values, all other identifiers and all other names for one attribute of each kind (thorough: every attribute); 34 damages of each byte of a small document (thorough: of the complete ones); damaged mappings, prologues and namespaces.'},
    'C12': {'sources': ['c12.cpp'] + NET,
            'technique': 'explicit-state exploration of histories of requests on the tap changers of two and three windings transformers in lock step with a reference model; every refusal predicted',
            'note': 'All histories up to depth 3 (quick; 2 with three tap changers) / 3-4 (thorough) of 53-75 position, regulation, set-point, terminal, mode, creation, removal and variant requests from five start histories of three arrangements.'},
    'C21': {'sources': ['c21.cpp'] + NET,
            'technique': 'exhaustive enumeration of small curves and query points against exact interpolation, and explicit-state exploration of histories of definitions in lock step with a reference model',
            'note': 'All ordered sequences of up to 4 (thorough: 5) points of a grid of 5 active powers and 4 reactive intervals on each kind of equipment with reactive limits, asked at, around, between and outside every point; all histories of 24 definitions and variant requests up to depth 4 (quick) / 5 (thorough) on two equipments.'},
    'C22': {'sources': ['c22.cpp'] + NET,
            'technique': 'explicit-state exploration of histories of requests on shunt compensators in lock step with a reference model; every refusal predicted; exhaustive enumeration of the settings of new shunt compensators',
            'note': 'All histories up to depth 3 (quick) / 4 (thorough) of section, model, regulation and variant requests from five start histories of linear and non linear models; every combination of the settings of a new shunt compensator.'},
    'C20': {'sources': ['c20.cpp'] + NET,
            'technique': 'exhaustive enumeration of limit sets, flows around every threshold, reductions, sides and kinds of limits, and explicit-state exploration of histories of definitions in lock step with a reference model',
            'note': 'Up to three temporary limits of 6 values around the flow and all orders of durations x 6 permanent limits x 4 reductions x 3 flows on both sides of 3 kinds of branches and for the 3 kinds of limits; 10 situations on each side; every combination of the attributes of a limit; histories of 60 definitions up to depth 2 (quick) / 3 (thorough) on pairs of ten holders.'},
    'C19': {'sources': ['c19.cpp'] + NET,
            'technique': 'exhaustive enumeration of grids of branch parameters, tap positions, states, sides and shunt placements, judged by an independent electrical model',
            'note': 'Full grids: 20736 parameter sets x 54-144 states computed both ways and back; lines, dangling lines, tie lines and halves built with and changed to 216 parameter sets; transformers with every pair of tap positions in two variants; boundaries in both topology kinds, in two variants, with missing values and disconnected.'},
    'C23': {'sources': ['c23.cpp'] + NET, 'flavour': 'asan',
            'technique': 'explicit-state exploration of histories of extensions of every kind in lock step with a model, exhaustive enumeration of their values and owners, under AddressSanitizer',
            'note': 'Every extension on 18 kinds of objects; every combination of the values of each extension; histories of additions, replacements, refused additions, removals, modifications and variant operations (up to 30000 sequences per kind in quick, 400000 in thorough); several extensions on one object; extensions of the user; measurements and discrete measurements up to depth 3 (quick) / 4 (thorough).'},
    'C11': {'sources': ['c11.cpp'] + NET,
            'technique': 'exhaustive enumeration of creation requests and bounded sequences of modifications in lock step with a model of the validity rules, the whole network observed before and after',
            'note': 'Creation of every kind of equipment with up to 2 (quick) / 3 (thorough) of its parameters off a valid request and full products of the related ones; sequences of modifications of every attribute up to depth 3; refused requests of every other kind alone and after one another; everything observed in every variant.'},
    'C03': {'sources': ['c03.cpp', 'sched.cpp'] + NET, 'flavour': 'tsan',
            'technique': 'stateless exploration of all the schedules, up to a preemption bound, of small multi-threaded programs on the real library under a controlled scheduler, with happens-before race detection, deadlock detection and a linearizability oracle',
            'note': 'the library is compiled with access instrumentation and run by the runtime of harness/sched.cpp'},
    'SMOKE': {'sources': ['smoke.cpp'] + NET, 'draft': True, 'technique': '', 'note': ''},
}
