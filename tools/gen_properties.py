#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],hook_needed=hook)))

p("C01","Variants are isolated and clones are faithful",
 "A value written while one variant is the working variant is visible in that variant only: every other variant keeps showing exactly the values it had, for every per-variant attribute of every kind of equipment, terminal, switch, bus, tap changer and extension. A variant created or overwritten by cloning shows exactly the values its source had at that moment and then evolves independently. This holds after any history of cloning, overwriting, removing, re-creating and switching variants. (A slack terminal extension, when added, designates its terminal in the working variant only.)",
 ["histories"],"every sequence (up to the bound) of clone / overwrite / remove / re-create / switch / write steps, for every per-variant attribute of a network holding every kind of equipment and every extension",
 "The unit tests clone one or two variants per equipment class in one fixed order; they do not exercise recycled variant slots, multi-target clones or shrink-then-grow for each attribute.",
 ["src/iidm/VariantManager.cpp","src/iidm","include/powsybl/iidm/MultiVariantObject.hpp","extensions"],
 [("per-object variant arrays","allocateVariantArrayElement / extendVariantArraySize / reduceVariantArraySize / deleteVariantArrayElement of every stateful object"),("clone dispatch","src/iidm/VariantManager.cpp")],
 ["public getters of every equipment in every variant"],[("variant arrays","one slot per variant index","every stateful object")])
p("C02","Variant management follows its lifecycle; refused requests change nothing",
 "After any sequence of clone, overwrite, remove and select requests the set of variants and the working variant are exactly those the accepted requests produce; the initial variant always exists and cannot be removed, and removing the working variant leaves no working variant selected, and reading per-variant data without a working variant is an error. Selecting, cloning from or removing an unknown variant and cloning onto an existing name without permission to overwrite are refused. A refused request, including a clone to several targets of which one is refused, leaves the variants, the working variant and every stored value as they were, and later requests still work.",
 ["histories"],"every sequence of variant management requests up to the bound over a small set of names, including multi-target clones, duplicates, unknown and existing names, overwriting the source itself",
 "Tests contain a handful of hand-written sequences; the recycling of freed slots and refused multi-target clones have combinatorially many orders.",
 ["src/iidm/VariantManager.cpp","src/iidm/MultipleVariantContext.cpp","src/iidm/ThreadLocalMultipleVariantContext.cpp"],
 [("name to slot map, unused slots","src/iidm/VariantManager.cpp")],["Network::getVariantManager()"],[("unused indexes","slots freed by removal and recycled by later clones","VariantManager")])
p("C03","Threads working on their own variants do not disturb each other",
 "When multi-thread variant access is allowed, the choice of a working variant is private to each thread and to each network: whatever the interleaving of threads that select variants, read and write attributes and list or query variants, a thread reads from its variant exactly what was last written to that variant. A thread that has selected no variant gets an error, never another thread's data, and concurrent variant management requests behave as if executed one after the other. No interleaving of such operations contains an unsynchronised conflicting memory access inside the library. Variant management that changes the variants (cloning, removing) while other threads read or write equipment, and removing a variant another thread has selected, are the caller's to avoid.",
 ["schedules"],"all interleavings, up to a preemption bound, of small multi-threaded programs that select / read / write / clone / remove / list variants",
 "Unit tests run the interleavings the OS happens to pick; a wrong sharing of the selected variant or a missing lock shows only under specific schedules.",
 ["src/iidm/VariantManager.cpp","src/iidm/ThreadLocalMultipleVariantContext.cpp","include/powsybl/iidm/VariantManager.hpp","src/iidm/NetworkIndex.cpp"],
 [("thread local variant index","src/iidm/ThreadLocalMultipleVariantContext.cpp"),("variant mutex","src/iidm/VariantManager.cpp")],["VariantManager and equipment accessors called from several threads"],
 [("working variant index","per thread","ThreadLocalMultipleVariantContext")])
p("C04","Identifiers and aliases designate exactly one object",
 "At every moment each identifier or alias designates at most one object of a network, and lookup by it returns precisely that object; a request that would make two objects share an identifier or alias is refused and changes nothing. An alias resolves exactly from when it is added until it or its object is removed, an alias type designates at most one alias per object, and the alias lists and types that an object reports agree with the lookups. Freed identifiers and aliases can be used again. (The calculated buses of a node/breaker voltage level are not stored objects and carry no aliases.)",
 ["histories"],"every sequence up to the bound of object creation, removal, alias addition (with and without type, with and without de-duplication) and alias removal over a small set of colliding names",
 "Tests check isolated additions; clashes between an identifier and an alias of another object, and re-use after removal, depend on the order of several operations.",
 ["src/iidm/NetworkIndex.cpp","src/iidm/NetworkIndex.hxx","src/iidm/Identifiable.cpp","include/powsybl/iidm/IdentifiableAdder.hxx"],
 [("network index maps","src/iidm/NetworkIndex.cpp"),("alias bookkeeping","src/iidm/Identifiable.cpp")],["Network::find/get, Identifiable::getAliases, getAliasType, getAliasFromType"],
 [("id map and alias map","global name space","NetworkIndex")])
p("C05","Bus/breaker voltage levels: calculated buses are the closed-switch components",
 "In a voltage level described with configured buses, the calculated buses are, in every variant and after any history of edits, exactly the groups of configured buses linked by closed switches that carry at least one connected branch (a line, dangling line, transformer or HVDC converter station terminal); every connected terminal, bus attribute (voltage, angle, equipment lists) and lookup agrees with that grouping. Opening, closing, adding or removing switches and buses, connecting, disconnecting, moving or removing equipment is reflected by the very next query.",
 ["histories"],"every sequence up to the bound of structural and state changes over small voltage levels, interleaved with queries, in one and in several variants",
 "Tests query after few fixed changes; stale cached groupings appear only for particular change-after-query orders and per variant.",
 ["src/iidm/BusBreakerVoltageLevel.cpp","src/iidm/BusBreakerVoltageLevelTopology.cpp","src/iidm/MergedBus.cpp","src/iidm/ConfiguredBus.cpp","src/iidm/BusBreakerVoltageLevelViews.cpp"],
 [("calculated topology with cache and invalidation","src/iidm/BusBreakerVoltageLevelTopology.cpp")],["VoltageLevel::getBusView / getBusBreakerView, Terminal::getBusView"],
 [("bus cache","last calculated grouping per variant","BusBreakerVoltageLevelTopology")])
p("C06","Node/breaker voltage levels: both calculated bus levels match the switch graph",
 "In a voltage level described with nodes, after any history of edits and in every variant, the bus/breaker-level buses are exactly the groups of nodes linked by internal connections and closed non-retained switches, and the bus-level buses the groups linked by internal connections and all closed switches, keeping only groups with enough equipment to form a bus. Every terminal, switch end, lookup and voltage or angle stored on a bus that has a terminal agrees with that grouping, and each change of switch state, retained flag, switch, internal connection or equipment is reflected by the very next query.",
 ["histories"],"every sequence up to the bound of structural and state changes over small node/breaker voltage levels, interleaved with queries, in one and in several variants",
 "Tests use a few fixed layouts and change them once; stale caches and removed nodes need particular multi-step histories.",
 ["src/iidm/NodeBreakerVoltageLevel.cpp","src/iidm/NodeBreakerVoltageLevelTopology.cpp","src/iidm/NodeBreakerVoltageLevelViews.cpp","src/iidm/CalculatedBus.cpp"],
 [("calculated topologies with cache and invalidation","src/iidm/NodeBreakerVoltageLevelTopology.cpp")],["VoltageLevel::getBusView / getBusBreakerView / getNodeBreakerView"],
 [("bus caches","two grouping levels per variant","NodeBreakerVoltageLevelTopology")])
p("C07","Connecting and disconnecting a terminal does what it reports",
 "Disconnecting a terminal either opens breakers so that it is electrically separated from every other busbar section (or detaches it from its bus) and reports success, or reports failure; connecting closes only breakers, only when a path to a busbar section exists on which nothing but breakers is open, and then the terminal is connected. An operation that reports that nothing was done leaves every switch and connection as it was, only the working variant is affected, and the reported connection state always agrees with the calculated buses: a terminal of a node/breaker voltage level is connected exactly when its node belongs to a valid bus of the bus view, a terminal of a bus/breaker voltage level when it is attached to its bus.",
 ["inputs","histories"],"all switch position vectors of several small node/breaker layouts and all short connect/disconnect histories, also in bus/breaker voltage levels and with several variants",
 "Tests exercise few switch positions on one layout; failure and partial effects appear for particular combinations of open disconnectors and fictitious or closed switches.",
 ["src/iidm/NodeBreakerVoltageLevel.cpp","src/iidm/BusBreakerVoltageLevel.cpp","src/iidm/Terminal.cpp","include/powsybl/math/UndirectedGraph.hxx"],
 [("path search and breaker operation","src/iidm/NodeBreakerVoltageLevel.cpp"),("bus terminal connection flag","src/iidm/BusBreakerVoltageLevel.cpp")],["Terminal::connect/disconnect/isConnected, Switch::isOpen"])
p("C08","Connected and synchronous components match electrical reachability",
 "In every variant and after any history of edits, two buses are in the same connected component exactly when they are linked through in-service lines, transformers and HVDC links, and in the same synchronous component exactly when linked without HVDC links. Components are numbered from the largest, the main component is number zero, component sizes and member lists agree with the numbers the buses report, and every change of connection, switch state or equipment is reflected by the very next query.",
 ["histories"],"every sequence up to the bound of connection, switch and equipment changes on small multi-substation networks with lines, two and three windings transformers and HVDC links",
 "Tests evaluate a few static networks; staleness after a particular kind of change needs an enumeration of change/query orders.",
 ["src/iidm/AbstractComponentsManager.cpp","src/iidm/ConnectedComponentsManager.cpp","src/iidm/SynchronousComponentsManager.cpp","src/math/GraphUtil.cpp","src/iidm/Component.cpp"],
 [("component managers","src/iidm/AbstractComponentsManager.cpp")],["Bus::getConnectedComponent / getSynchronousComponent / isInMainConnectedComponent, Network bus view component lists"])
p("C09","XML export then import gives back the same network",
 "Writing a network as XML and reading it back yields a network with the same equipment, structure, attributes, limits, tap changers, regulation settings, names, aliases, properties and extensions, including every unset and boundary value, for whatever combination of optional features each equipment uses. Writing the result again produces the same document. The export does not modify the network it writes. (What the format has no place for is apart: the fictitious flag of the network itself, voltages stored outside any bus, a slack terminal that designates nothing, the names of the two lines a tie line was merged from.)",
 ["inputs","configurations"],"every combination (pairwise full products of bounded value sets) of optional features and attribute values of every equipment and extension, in both topology kinds",
 "Tests compare a few reference files; an attribute lost only when another option is set, or at unset values, is not sampled.",
 ["src/iidm/converter/xml","include/powsybl/iidm/converter/xml","extensions/entsoe/src","extensions/iidm/src","extensions/sld/src"],
 [("per-equipment XML serializers","src/iidm/converter/xml"),("extension serializers","extensions")],["Network::writeXml / Network::readXml"])
p("C10","Damaged or hostile XML is refused with an error, never a crash",
 "Importing any truncated, altered or inconsistent document ends either with a usable network or with a reported error; it never crashes, never reads outside its data, never loops forever, and never hands back a network whose structure is broken. A document that is not complete is always refused. (A document asking for more memory than the machine has ends with the reported error of the failed allocation.)",
 ["fault_sequences","inputs"],"every truncation point, and every single deletion, duplication, replacement and reordering of an attribute or element, of reference documents that cover all equipment and extensions",
 "Tests import well-formed files and a few hand-written wrong ones; failures hide at specific positions and attribute/element combinations.",
 ["src/xml/XmlStreamReader.cpp","src/iidm/converter/xml","extensions"],
 [("stream reader loops and conversions","src/xml/XmlStreamReader.cpp"),("validation in adders","src/iidm")],["Network::readXml"])
p("C11","Refused modifications change nothing; accepted ones respect the documented rules",
 "Creating or modifying any equipment with an invalid value, an invalid combination or a missing mandatory value is refused with an error; when it is refused the whole network is exactly as before (no half-created equipment, no consumed identifier, no changed value) and the same request with valid values succeeds. No accepted sequence of requests ever leaves an equipment in a state that its own validity rules forbid.",
 ["inputs","histories"],"the product of bounded value sets (unset, negative, zero, positive, crossed bounds) over the attributes of every equipment's creation and modification, and short sequences of modifications",
 "Tests try each rule once with one wrong value; combinations of attributes and the state after a refusal are not examined.",
 ["src/iidm/ValidationUtils.cpp","src/iidm","include/powsybl/iidm"],
 [("validation helpers","src/iidm/ValidationUtils.cpp"),("adders","src/iidm/*Adder.cpp")],["adders and setters of every equipment, full observation of the network before and after"])
p("C12","Tap changers stay within their steps and regulation rules in every variant",
 "The tap position of a tap changer is, in every variant, always one of its defined steps, the step it designates is the one whose values are reported, and moving the lowest position shifts positions consistently in all variants. Regulation can be on only with a regulation terminal, an acceptable set-point and dead band and (for phase shifters) a regulating mode, at most one tap changer of a transformer regulates, and any refused change leaves the tap changer as it was. (A ratio tap changer without load tap changing capabilities never moves: its set-point and terminal are only warned about. The values of a step may be unset after creation.)",
 ["histories"],"every sequence up to the bound of tap position, lowest position, regulation mode, regulation flag, set-point, dead band, terminal changes and variant operations, on two and three windings transformers",
 "Tests change one setting at a time in one or two variants; violations need two or three cooperating changes, often across variants.",
 ["include/powsybl/iidm/TapChanger.hxx","src/iidm/RatioTapChanger.cpp","src/iidm/PhaseTapChanger.cpp","src/iidm/RatioTapChangerAdder.cpp","src/iidm/PhaseTapChangerAdder.cpp","src/iidm/ValidationUtils.cpp"],
 [("tap position checks","include/powsybl/iidm/TapChanger.hxx"),("regulation checks","src/iidm/ValidationUtils.cpp")],["tap changer getters in every variant"])
p("C13","The topology graph behaves like a reference multigraph",
 "After any sequence of vertex and edge additions and removals, the graph used for topologies reports exactly the vertices, edges, objects, counts and incidences that those operations define, and refuses invalid operations without effect. Traversals visit exactly the part reachable under the traverser's decisions, each edge at most once, and path enumeration returns exactly the simple paths satisfying the target and the encountered-edge rules, shortest first.",
 ["histories","inputs"],"all operation sequences up to the bound and all small multigraphs (with parallel edges, loops, holes left by removal) with all traverser decisions",
 "Tests use a few fixed graphs; slot re-use after removal and traversal on holes need exhaustive histories.",
 ["include/powsybl/math/UndirectedGraph.hxx","include/powsybl/math/UndirectedGraph.hpp","src/math/GraphUtil.cpp"],
 [("edge and vertex slot management","include/powsybl/math/UndirectedGraph.hxx")],["math::UndirectedGraph public interface"])
p("C14","Removing equipment leaves no trace and no dangling reference",
 "After removing any equipment, switch, bus, voltage level, substation, HVDC line or extension, nothing in the network still refers to it: lookups, ranges, buses, components, regulating terminals and exports no longer show it and using what remains is safe. A removal that is not allowed because something still depends on the object is refused and changes nothing. Removing everything that was added brings the network back to its previous observable state.",
 ["histories"],"every object of a network holding all equipment kinds, and every ordered pair and bounded sequence of removals, followed by full observation of the network",
 "Tests remove one object of a class and check a count; dangling references depend on which other object refers to the removed one.",
 ["src/iidm/Connectable.cpp","src/iidm/VoltageLevel.cpp","src/iidm/Substation.cpp","src/iidm/HvdcLine.cpp","src/iidm/NetworkIndex.cpp","src/iidm/BusBreakerVoltageLevel.cpp","src/iidm/NodeBreakerVoltageLevel.cpp"],
 [("removal code of each level","src/iidm")],["full observation of the network after removals, under a memory checker"])
p("C15","Anonymised export hides names and can be undone exactly",
 "An anonymised export contains none of the original identifiers, names and aliases of equipment (the free texts of properties and extensions and the identifier of the network itself are not anonymised), maps equal names to equal codes and different names to different codes, and importing it with the mapping file written beside it restores the original network exactly. Without its mapping the document is either refused or yields the anonymous network. The code generation never repeats a code.",
 ["inputs","configurations"],"all networks of the feature matrix and every name from a bounded alphabet including separators and special characters; mapping sizes across code-length boundaries",
 "Tests anonymise one network with plain names; names with separators, names equal to codes and code-length boundaries are not sampled.",
 ["src/iidm/converter/SimpleAnonymizer.cpp","src/iidm/converter/xml"],
 [("bijective mapping and its CSV form","src/iidm/converter/SimpleAnonymizer.cpp")],["Network::writeXml with the anonymised option, the CSV file, Network::readXml"])
p("C16","A moved network is the same network",
 "Moving a network into another object transfers everything: all equipment, identifiers and aliases, variants and their values, extensions, listeners of structure such as buses and components, and every object keeps referring to the new owner. All operations afterwards behave as on the original, at whatever point of a history the move takes place.",
 ["histories"],"every prefix of bounded operation histories (creation, variants with freed slots, cached bus queries, aliases, extensions, removal) followed by a move and by further operations",
 "Tests move a fresh network once; what is forgotten by the move shows only with holes in variants, aliases or cached views.",
 ["src/iidm/Network.cpp","src/iidm/NetworkIndex.cpp","src/iidm/VariantManager.cpp","include/powsybl/iidm/VariantArray.hxx","src/iidm/NetworkRef.cpp","src/iidm/Extendable.cpp"],
 [("move constructors","src/iidm/Network.cpp, src/iidm/NetworkIndex.cpp, src/iidm/VariantManager.cpp")],["full observation before and after the move"])
p("C17","All views of the equipment inventory agree",
 "At every moment the network-wide lists, counts and lookups, the lists and counts of each substation and voltage level, the per-type lists, the equipment lists of the buses and the visitors all show the same equipment: each one exactly once (in the lists of a bus, once per terminal connected to it), in the right container and type. This holds after any history of additions and removals in both topology kinds.",
 ["histories"],"every sequence up to the bound of additions, removals, connections and disconnections over all equipment kinds, every view compared after every step",
 "Tests compare a few counts on fixed networks; there are dozens of views whose agreement must hold after each change.",
 ["src/iidm/Network.cpp","src/iidm/Substation.cpp","src/iidm/VoltageLevel.cpp","src/iidm/Bus.cpp","src/iidm/TopologyVisitor.cpp","src/iidm/NetworkViews.cpp"],
 [("typed indexes and filtered ranges","src/iidm/NetworkIndex.hxx, src/iidm/VoltageLevel.cpp")],["ranges, counts, lookups and visitors"])
p("C18","A failed write is reported",
 "When the destination of an XML export stops accepting data at any byte, the export ends with an error instead of returning normally; the network is unchanged and a new export to a working destination is complete. An export that returns normally has delivered the whole document.",
 ["fault_sequences"],"a write fault at every byte offset of the produced document (short write, bad stream, exception), for indented and compact, plain and anonymised exports",
 "No test injects a write failure.",
 ["src/xml/XmlStreamWriter.cpp","src/iidm/converter/xml/NetworkXml.cpp","src/iidm/Network.cpp"],
 [("output callback and end of document","src/xml/XmlStreamWriter.cpp")],["Network::writeXml on a failing stream"])
p("C19","Branch state computations agree with the electrical model",
 "From the voltage and power at one end of a line, dangling line or transformer, the values computed for the other end satisfy the branch equations for the parameters and tap positions in force, whatever they are; computing back gives the starting values; the separate accessors agree with the combined one. The same holds for the values reported at the boundary of dangling lines and of the halves of tie lines.",
 ["inputs"],"a full grid of branch parameters (including zero, negative and one-sided shunts), tap steps with corrections, both sides, both shunt placements and state values",
 "Tests check a few numerical examples; sign and side errors in rarely used parameters are not exposed.",
 ["src/iidm/util/SV.cpp","src/iidm/util/LinkData.cpp","src/iidm/DanglingLineBoundary.cpp","src/iidm/HalfLineBoundary.cpp","src/iidm/TieLine.cpp"],
 [("admittance matrix and other side computation","src/iidm/util/SV.cpp")],["SV, Boundary, TieLine accessors"])
p("C20","Limits and overload detection follow the thresholds",
 "For every set of permanent and temporary limits, flow value and reduction factor, a branch is reported over its permanent limit exactly when the flow reaches the reduced limit, and the temporary overload reported is exactly the interval the flow lies in, with the right previous limit and duration; unset limits or flows report nothing. Limit sets keep exactly the valid temporary limits they were given (one per acceptable duration, the first given), on the right side and of the right kind, and invalid ones are refused without effect. The flow compared with a current limit is the current the terminal reports, which is the one of its power and voltage.",
 ["inputs"],"all combinations of bounded sets of permanent limits, up to three temporary limits, flows around each threshold, reductions, sides and the three limit kinds",
 "Tests check a few flows; boundary equality, missing permanent limits and per-side or per-kind mix-ups are not all sampled.",
 ["src/iidm/Branch.cpp","src/iidm/util/LimitViolationUtils.cpp","src/iidm/LoadingLimits.cpp","include/powsybl/iidm/LoadingLimitsAdder.hxx","src/iidm/OperationalLimitsHolder.cpp","src/iidm/FlowsLimitsHolder.cpp"],
 [("threshold comparison","src/iidm/util/LimitViolationUtils.cpp"),("limit adders","include/powsybl/iidm/LoadingLimitsAdder.hxx")],["Branch::checkPermanentLimit*, checkTemporaryLimits*, isOverloaded, getOverloadDuration, limits getters"])
p("C21","Reactive limits are interpolated correctly and replaced atomically",
 "For every curve of at least two points given in any order, the minimum and maximum reactive power at any active power are the linear interpolation between the surrounding points, the end values outside the curve, and exactly the given values at the points; constant limits apply everywhere. An equipment always has exactly one kind of reactive limits, the last one accepted, and a refused definition leaves the previous one in force.",
 ["inputs","histories"],"all curves from a bounded grid (orders, duplicates, negative powers), all query powers at, between and outside points, and all short sequences of definitions on every equipment that carries reactive limits",
 "Tests interpolate in one curve.",
 ["src/iidm/ReactiveCapabilityCurve.cpp","src/iidm/ReactiveCapabilityCurveAdder.cpp","src/iidm/MinMaxReactiveLimitsAdder.cpp","src/iidm/ReactiveLimitsHolder.cpp"],
 [("interpolation","src/iidm/ReactiveCapabilityCurve.cpp")],["getMinQ/getMaxQ/getPoints/getKind on generators, batteries, converter stations, dangling line generation"])
p("C22","Shunt section counts and susceptances are consistent in every variant",
 "In every variant the number of connected sections of a shunt compensator is between zero and the number of sections its model defines, and the susceptance and conductance it reports are those of exactly that number of sections, for linear and non-linear models. Requests that would break this are refused without effect, and regulation can be on only with a valid set-point and dead band.",
 ["histories"],"every sequence up to the bound of section count, model and regulation changes and variant operations on all small linear and non-linear models",
 "Tests check a few section counts in one variant.",
 ["src/iidm/ShuntCompensator.cpp","src/iidm/ShuntCompensatorLinearModel.cpp","src/iidm/ShuntCompensatorNonLinearModel.cpp","src/iidm/ShuntCompensatorAdder.cpp"],
 [("section checks","src/iidm/ShuntCompensator.cpp, src/iidm/ValidationUtils.cpp")],["ShuntCompensator getters in every variant"])
p("C23","Extensions stay attached to their owner and follow their own rules",
 "An object carries at most one extension of each kind: adding one replaces the previous one, which no longer designates the object, removing it makes it disappear from every access path, and access by name, by type and by iteration always agree. Every provided extension returns exactly the values it was last accepted with, refuses invalid values without effect, and per-variant extension data follow the rules of variants.",
 ["histories"],"every sequence up to the bound of add / replace / remove / modify / clone / switch for each provided extension on each owner it supports",
 "Tests exercise each extension once; replacement, double removal and state after refusal are not covered.",
 ["src/iidm/Extendable.cpp","src/iidm/Extension.cpp","include/powsybl/iidm/Extendable.hxx","src/iidm/extensions","extensions"],
 [("extension maps by name and by type","src/iidm/Extendable.cpp")],["Extendable::findExtension/getExtension/getExtensions/removeExtension, extension getters"])
p("C24","Older format versions are written and read without silent corruption",
 "Exporting to any supported older format version either succeeds and reads back as the same network minus exactly the features that version does not know, or is refused when refusal is requested and an equipment or a function would be lost (small attributes the older format has no place for, such as ratedS, the fictitious flag, aliases of equipment or alias types, are dropped); a document is never produced that the library itself cannot read. Importing a document of any supported version yields the same equipment as the same content in the current version, and unsupported versions are refused.",
 ["configurations","inputs"],"every supported version, both incompatibility behaviours, and the matrix of version-dependent features taken alone and in pairs",
 "Tests compare selected reference files per version.",
 ["src/iidm/converter/xml/IidmXmlUtil.cpp","src/iidm/converter/xml/IidmXmlVersion.cpp","src/iidm/converter/xml","include/powsybl/iidm/converter/xml"],
 [("version guards","src/iidm/converter/xml/IidmXmlUtil.cpp")],["Network::writeXml with a version, Network::readXml"])
p("C25","Export at a coarser topology level keeps the electrical network",
 "Exporting at bus/breaker or bus level any node/breaker or bus/breaker network gives a document that reads back as a network with the same equipment and attributes (busbar sections, switches inside a bus of the chosen level and their extensions apart; the kind of the remaining switches is not kept). The configured buses of the result are the buses of the chosen level of the original, with the same identifiers, connected equipment and voltages; equipment connected to no such bus is disconnected in the result; the buses that carry a branch have the same equipment and are in the same connected and synchronous components. A network in which some equipment could be attached to no bus of the chosen level, or which refers to the terminal of a busbar section, is refused instead.",
 ["inputs","configurations"],"all switch positions of small node/breaker and bus/breaker networks with every equipment kind, exported at every topology level",
 "Tests export a couple of networks in one state.",
 ["src/iidm/converter/xml/VoltageLevelXml.cpp","include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx","src/iidm/converter/BusFilter.cpp","src/iidm/NodeBreakerVoltageLevelTopology.cpp"],
 [("topology level selection","src/iidm/converter/xml/VoltageLevelXml.cpp")],["Network::writeXml with a topology level, Network::readXml"])
p("C26","Text, numbers and dates survive the XML layer unchanged",
 "Every text accepted as a name, identifier, alias, property or other string, every number (including very small, very large, negative zero, infinite and unset ones) and every case date written to XML is read back identical, in indented and compact form. Text that cannot be represented, and a tap changer step with an unset value, are refused at export rather than changed or turned into an unreadable document. (A geographical tag cannot hold a comma, and tap positions cannot exceed the integers.)",
 ["inputs"],"all strings up to the bound over an alphabet of markup, quote, white space, control, separator and multi-byte characters in each text position; all numbers from a set of boundary values in each numeric position; a bounded set of dates",
 "Tests use plain ASCII names and ordinary numbers.",
 ["src/xml/XmlStreamWriter.cpp","src/xml/XmlStreamReader.cpp","include/powsybl/stdcxx/math.hpp","src/stdcxx/DateTime.cpp","src/iidm/converter/xml/PropertiesXml.cpp","src/iidm/converter/xml/AliasesXml.cpp"],
 [("escaping and number formatting","src/xml/XmlStreamWriter.cpp")],["Network::writeXml / readXml, XmlStreamWriter / XmlStreamReader, DateTime"])
p("C27","Traversals visit exactly what is reachable",
 "A traversal of a network started at any terminal and a traversal of a voltage level started at any node visit exactly the terminals or nodes reachable under the decisions of the visitor, presenting each terminal once and entering each node once, crossing switches only when the visitor allows it and equipment only when the visitor accepts one of the terminals it presents there; a bus reached through a switch presents all its terminals and is left further if one of them is accepted or it has none; visiting the equipment of a bus presents exactly the connected (or connectable) equipment with the right sides, each once. This holds in every variant and for every switch position.",
 ["inputs"],"all switch positions of small networks of both kinds, every start terminal or node, every stopping decision from a bounded set",
 "Tests traverse a few networks from a few terminals.",
 ["src/iidm/NodeTerminal.cpp","src/iidm/BusTerminal.cpp","src/iidm/NodeBreakerVoltageLevel.cpp","src/iidm/BusBreakerVoltageLevel.cpp","src/iidm/TopologyVisitor.cpp","src/iidm/util/Networks.cpp"],
 [("terminal and graph traversal","src/iidm/NodeBreakerVoltageLevel.cpp, src/iidm/BusBreakerVoltageLevel.cpp")],["Terminal::traverse, NodeBreakerView::traverse, Bus::visitConnectedEquipments, Networks utilities"])
p("C28","Export and import options do exactly what they say",
 "Options read from properties, under their documented or legacy names and with booleans in any letter case, behave as the same options set directly; those that are absent take the documented defaults, and an unknown topology level or incompatibility behaviour is refused. An export writes, and an import reads, exactly the selected extensions of each object (all of them when none is named), leaving everything else the same, and writes each extension in the version asked for; a version that does not exist or is not compatible with the version of the document is refused, and an extension without serializer is skipped, or refused if that was asked for and it is selected. Without branch state variables the document lacks only the flows of lines and transformers; without indentation it differs only by white space; the same network and options always give the same document, in a stream or in a file.",
 ["inputs","configurations"],"all combinations of the values of the option properties, all short sequences of requests on the options, all combinations of options and of one, two or all but one extensions on complete networks, all asked versions of extensions in all document versions",
 "Tests set a handful of options one at a time.",
 ["src/iidm/converter/ExportOptions.cpp","src/iidm/converter/ImportOptions.cpp","src/iidm/converter/ConversionParameters.cpp","src/iidm/converter/Parameter.cpp","src/iidm/converter/xml/NetworkXml.cpp","src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp"],
 [("options and their application","src/iidm/converter/ExportOptions.cpp, src/iidm/converter/xml/NetworkXml.cpp")],["ExportOptions, ImportOptions, Network::writeXml, Network::readXml"])
p("C29","An accepted modification changes exactly what it names",
 "When setting an attribute of an object is accepted, that attribute then reads exactly as given (in the working variant only when it is held per variant, in all variants otherwise), the quantities documented as computed from it follow (the current of a terminal, the sums and voltages of buses, the boundary values of dangling and tie lines, the merged parameters of a tie line, the values of the current step or sections, the topology behind a switch), and nothing else in the network changes: no other attribute of the same object, no other object, no other variant. Setting it again to the same value changes nothing, setting it back restores the network as it was, and this holds whatever was set on the object before. (Extensions have their own property; the flag 'fictitious' of calculated buses is not claimed.)",
 ["inputs","histories"],"every setter of every object of a network holding every kind of equipment, several values each, from each of two variants; and all ordered pairs of setters of one object",
 "Tests read back the attribute they have just set; they do not look at the other attributes, objects and variants.",
 ["src/iidm","include/powsybl/iidm/TapChanger.hxx","include/powsybl/iidm/TapChangerStep.hxx"],
 [("setters of equipments, steps, limits, terminals, buses and containers","src/iidm, include/powsybl/iidm")],["all public getters, before and after, in every variant"])
for x in P: print(json.dumps(x))
