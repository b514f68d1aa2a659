#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is painful to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/pyRFtk/"

prop("C01", "A circuit's S-matrix is the exact network response of what was wired",
 "For every circuit assembled from blocks by adding, joining and terminating ports, the scattering matrix it returns equals the one obtained independently from Kirchhoff's laws applied to the blocks' own port behaviour (ideal N-way junctions, terminations of the given Z, Y or reflection coefficient, unused ports external). It has one row and column per external port in the reported port order, at scalar as well as at vector frequencies.",
 ["programs", "inputs"], "all build programs over addblock/connect/terminate (2..5-way junctions, new external junction ports, open/short/arbitrary terminations, array blocks, nested circuits, self-loops) and all frequencies",
 "The tests build three or four fixed circuits and only check that nothing raises; the claim is over all wirings and block values.",
 [S+"rfCircuit.py"], [("rfCircuit.addblock", S+"rfCircuit.py"), ("rfCircuit.connect", S+"rfCircuit.py"), ("rfCircuit.terminate", S+"rfCircuit.py"), ("rfCircuit.extS", S+"rfCircuit.py"), ("rfCircuit.getS", S+"rfCircuit.py")],
 [("M", "wave equation matrix"), ("ports", "free ports in external order")], ["rfCircuit.getS", "rfCircuit.ports"])

prop("C02", "The internal solution obeys Kirchhoff's laws everywhere",
 "For every circuit, frequency, excitation and reference impedance, the reported voltages, currents and forward/reflected waves at all nodes, on every nesting level, satisfy: equal voltage and zero net current at every junction, the given impedance law at every termination, the block's own scattering relation at every block, the imposed forward wave at every external port, and V = Vf+Vr, Z·I = Vf-Vr. Asking only for some nodes returns the same values, and scattering matrices derived between internal nodes are consistent with that same solution.",
 ["programs", "inputs"], "all circuits (flat and nested, renamed ports, array blocks), excitations of all external ports, reference impedances, node selections",
 "A test can look at the voltages of one circuit; the laws must hold at each node of any circuit for any excitation.",
 [S+"rfCircuit.py"], [("rfCircuit.Solution", S+"rfCircuit.py"), ("rfCircuit.solve", S+"rfCircuit.py"), ("rfCircuit.Get_internalSmatrix", S+"rfCircuit.py")],
 [("sol", "waves for the last excitation"), ("tSol", "node -> (V,I,Vf,Vr)")], ["rfCircuit.Solution", "rfCircuit.Get_internalSmatrix"])

prop("C03", "Reference impedance is a presentation choice, never physics",
 "Requesting any object's scattering matrix at another reference impedance gives exactly the renormalised matrix of the same physical network (same port impedance/admittance relation). The reference impedance chosen for an object or for any circuit level that contains it does not change the physical response, solution voltages or currents.",
 ["inputs", "configurations", "programs"], "all element kinds (lines, lumped elements, arcs, couplers, tabulated data, constant arrays, circuits at any nesting), all positive reference impedances at the object, circuit and request level",
 "Tests leave nearly everything at 50 Ohm; the guarantee ranges over every combination of per-object, per-circuit and per-request reference impedance.",
 [S+"rfBase.py", S+"rfCircuit.py", S+"rfTRL.py", S+"rfRLC.py", S+"rfObject.py", S+"rfCoupler.py", S+"rfArcObj.py", S+"ConvertGeneral.py"],
 [("getS(Zbase=) of each class", S), ("rfCircuit.terminate (Z, Y -> reflection)", S+"rfCircuit.py")], None, ["getS", "Solution"])

prop("C04", "S, Z, Y and VI conversions obey their definitions and invert each other",
 "Converting between scattering, impedance, admittance and voltage/current descriptions satisfies the defining relations V=ZI, I=YV, (V-ZbI)=S(V+ZbI) for every matrix where the target exists, and conversions are mutual inverses. The result keeps the shape of the input (scalar, list, one matrix, stack of matrices) and treats every frequency slice independently.",
 ["inputs"], "all complex well-conditioned N-port matrices, N>=1, stacks of any length, all input ranks from scalar to 3-D, real positive reference impedances",
 "Tests never call these converters with more than one shape or size; the relation is universally quantified over matrices and shapes.",
 [S+"S_from_Z.py", S+"Z_from_S.py", S+"S_from_Y.py", S+"Y_from_S.py", S+"S_from_VI.py", S+"_check_3D_shape_.py"],
 [("S_from_Z", S+"S_from_Z.py"), ("Z_from_S", S+"Z_from_S.py"), ("S_from_Y", S+"S_from_Y.py"), ("Y_from_S", S+"Y_from_S.py"), ("S_from_VI", S+"S_from_VI.py"), ("_check_3D_shape_", S+"_check_3D_shape_.py")], None, ["return values"])

prop("C05", "General wave conversion preserves the port voltages and currents",
 "Converting scattering data between wave definitions (voltage, power and generalised complex-impedance waves) and between port impedances (common, per port, per frequency and per port) leaves every (V, I) pair allowed at the ports unchanged under the documented wave definitions. Converting back returns the original, chains compose, and the shape of the data is kept.",
 ["inputs"], "all scattering stacks (0-D to 3-D), impedance specifications of rank 0, 1 and 2 (with positive real part; complex ones enter as the documented definitions of the waves say), the 9 type pairs",
 "The tests use only one real scalar impedance and voltage waves; the claim covers 9 type pairs times all impedance layouts.",
 [S+"ConvertGeneral.py", S+"_check_3D_shape_.py"], [("ConvertGeneral", S+"ConvertGeneral.py")], None, ["return value"])

prop("C06", "A transmission line section solves the telegrapher's equations",
 "For every line section the scattering matrix, the voltage and current standing waves and their end values agree with the solution of the telegrapher's equations for its distributed parameters, whether these are uniform or vary along the section. Consequently a section cut into pieces and cascaded, or reversed with mirrored parameters, gives the same result, a zero-length section is a through, and a uniform line matches the closed-form response.",
 ["inputs", "configurations"], "all line descriptions (Z0/velocity, L/C/R/G, coax geometry and materials, attenuation), constant, piecewise linear and callable profiles, lengths >= 0, sampling choices, frequencies >= 0 (at 0 the limit of small ones)",
 "Tests print a few lines at one frequency and check nothing numerically; the equation must hold for all parameters, profiles and lengths.",
 [S+"rfTRL.py", S+"resolveTLparams.py", S+"S_from_VI.py"], [("rfTRL.solveVI", S+"rfTRL.py"), ("rfTRL.getS", S+"rfTRL.py"), ("rfTRL.VISWs", S+"rfTRL.py"), ("S_from_VI", S+"S_from_VI.py")], [("solved", "per-frequency solutions")], ["rfTRL.getS", "rfTRL.VISWs", "rfTRL.maxV"])

prop("C07", "Derived line parameters satisfy the defining physical relations",
 "Whichever sufficient set of line parameters is given, all parameters the resolver derives satisfy together the physical relations between inductance, capacitance, impedance, velocity, materials, coaxial geometry, losses and skin effect, and the given ones keep the supplied values, at every position and frequency. Two descriptions of the same physical line therefore give the same line response.",
 ["inputs", "configurations"], "all sufficient, non-contradictory combinations of the documented parameters, constant or varying along the line, all frequencies > 0",
 "There are dozens of derivation equations chained in data-dependent order; tests exercise two or three of the combinations and print the outcome.",
 [S+"resolveTLparams.py", S+"rfTRL.py"], [("TLresolver", S+"resolveTLparams.py")], [("kwset", "resolved parameter functions")], ["TLresolver attributes", "rfTRL.getS"])

prop("C08", "Lumped elements and arcs realise exactly their circuit diagram",
 "A series R-L-C branch followed by a shunt parallel R-L-C to ground gives, for any subset of elements present, exactly that two-port's response at every frequency including zero frequency, absent elements acting as shorts (series) or opens (shunt). An arc is a one-port inductance to ground, open by default, and behaves as such inside circuits too.",
 ["inputs", "configurations"], "all subsets of the six elements with any positive values (zero and infinity included), frequency >= 0, scalar or vector, any reference impedance; all arc inductances",
 "Tests build one capacitor and one arc and check nothing; the subsets, limits and frequencies are unbounded.",
 [S+"rfRLC.py", S+"rfArcObj.py", S+"rfBase.py"], [("rfRLC.getS", S+"rfRLC.py"), ("rfArcObj.get1S", S+"rfArcObj.py")], None, ["rfRLC.getS", "rfArcObj.getS"])

prop("C09", "Couplers and hybrids are matched, isolated, lossless and coupled as specified",
 "A directional coupler with given coupling, matching and isolation-free operation is reciprocal and power conserving at its design frequency for any coupling value; the fraction of power at the coupled port equals the requested coupling, whichever way it was specified, and the remaining power is transmitted. Its behaviour away from the design frequency and at other reference impedances stays reciprocal, passive and consistent with that same device.",
 ["inputs", "configurations"], "all couplings (linear or dB), port names, reference impedances, design and evaluation frequencies",
 "No test evaluates a coupler numerically.",
 [S+"rfCoupler.py"], [("rfCoupler", S+"rfCoupler.py")], None, ["rfCoupler.getS"])

prop("C10", "Tabulated S-data: exact at the stored points, faithful in between",
 "An object holding tabulated scattering data returns exactly the stored matrix (renormalised on request) at every stored frequency, in whatever order and batches the points were supplied, and between points the interpolant of the selected kind through exactly those points. Units of frequency, re-sorting of ports, conversion of the reference impedance, overwriting of entries and (un)pickling are all reflected in every later answer, whether or not the object was interrogated before.",
 ["inputs", "histories"], "all data sets (1..N points, any port count), insertion orders, interpolation modes, frequency units, and interleavings of queries with modifications",
 "Tests query one table once; the guarantee is about all interleavings of modification and query.",
 [S+"rfObject.py"], [("rfObject.setS", S+"rfObject.py"), ("rfObject._interp_", S+"rfObject.py"), ("rfObject.getS", S+"rfObject.py"), ("rfObject.sortports", S+"rfObject.py"), ("rfObject.convert2newZbase", S+"rfObject.py")],
 [("fs,Ss", "the table"), ("interpOK", "interpolator validity")], ["rfObject.getS"])

prop("C11", "Writing a Touchstone file and reading it back returns the same network",
 "Data written as Touchstone text or file and read back gives the same frequencies, ports and network response up to the printed precision, for every number format, parameter type, frequency unit and reference resistance that can be requested. Non-reciprocal two-ports keep their direction.",
 ["inputs", "configurations"], "all frequency grids, port counts, (non-)reciprocal matrices, formats RI/MA/DB, units Hz..GHz, reference resistances, S/Y/Z where the writer supports them, both writers, port names",
 "Tests write one reciprocal file and never compare what is read back.",
 [S+"rfBase.py", S+"WriteTSF.py", S+"ReadTSF.py", S+"rfObject.py"], [("rfBase.tsf2str/write_tsf", S+"rfBase.py"), ("WriteTSF", S+"WriteTSF.py"), ("ReadTSF", S+"ReadTSF.py")], None, ["ReadTSF", "rfObject(touchstone=)"])

prop("C12", "Reading Touchstone depends only on the data, not on its layout",
 "The same Touchstone data give the same frequencies and scattering matrices whatever the source kind (path, open file, text), letter case and order of the option line, comments, blank lines, white space and line breaking; omitted options take the standard's defaults. Per-frequency port impedance and propagation comments are attached to the right frequency and port, and the result is converted to the requested reference impedance and frequency unit.",
 ["inputs", "configurations"], "all layouts of valid Touchstone v1 text, S/Y/Z x RI/MA/DB x units x R, 1..N ports, with or without port-impedance/propagation comment blocks, requested Zbase/unit",
 "Tests read two shipped files in one layout; the format's variability is what users feed it.",
 [S+"ReadTSF.py", S+"getlines.py"], [("ReadTSF", S+"ReadTSF.py"), ("getlines", S+"getlines.py")], None, ["ReadTSF return value"])

prop("C13", "Results depend only on the present definition, never on the history",
 "After any sequence of queries, parameter changes, re-terminations, block replacements and copies, an object returns the same answers as a freshly built object with the same final definition. In particular no result is stale after a modification, and queries at different frequencies, reference impedances or flags do not influence one another.",
 ["histories"], "all interleavings of getS/Solution/maxV/str with set, params, terminate, addblock (replace) and Portnames changes, on circuits of any nesting",
 "Caching bugs need a specific multi-step history; the tests run each circuit once.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfTRL.py", S+"rfRLC.py", S+"rfObject.py"], [("rfCircuit.getS (cache)", S+"rfCircuit.py"), ("rfCircuit.terminate", S+"rfCircuit.py"), ("rfCircuit.set", S+"rfCircuit.py"), ("rfTRL.set / solved", S+"rfTRL.py")],
 [("S, f, invM, flags, solved, interpOK", "cached results")], ["getS", "Solution", "maxV"])

prop("C14", "A copy is equivalent and independent",
 "A copy of any object (at any point of its life, via copy(), the copy module or pickling where supported) gives the same answers as the original, and no later modification of either one - parameters, terminations, connections, blocks, table entries, port names - is visible through the other. Tabulated data compare equal with their copies for as long as neither is modified.",
 ["histories", "programs"], "all object kinds, solved or unsolved, nested circuits, any operation sequence on either twin after copying",
 "Aliasing shows only after a particular modification of a particular twin; tests never modify after copying.",
 [S+"rfBase.py", S+"rfTRL.py", S+"rfRLC.py", S+"rfObject.py", S+"rfCircuit.py"], [("__deepcopy__ of each class", S)], None, ["getS of both twins"])

prop("C15", "All ways to set a nested parameter are equivalent and all-or-nothing",
 "Addressing a parameter by nested dictionary, dotted path, (path, value) pair or keyword reaches the same element and has exactly the effect of building the circuit with that value; the return value tells whether anything changed. An address or attribute that does not exist is reported by an error and leaves the circuit as it was.",
 ["programs", "inputs"], "all nested circuits, all settable attributes, all documented call forms, several settings per call, valid and invalid addresses",
 "Tests use two of the forms on one circuit.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfTRL.py", S+"rfRLC.py"], [("rfCircuit.set", S+"rfCircuit.py"), ("rfBase.set", S+"rfBase.py"), ("rfRLC.set", S+"rfRLC.py"), ("rfTRL.set", S+"rfTRL.py")], None, ["set return value", "getS"])

prop("C16", "Observing never changes or breaks anything",
 "Printing, listing, locating, looking up positions, computing solutions or maximum voltages and switching the diagnostic log on or off never raise on a valid object and never alter any later result. Every operation gives the same outcome at every log level.",
 ["histories", "configurations"], "all object kinds and states (empty, partly wired, solved, terminated), all observer calls, log levels from silent to debug",
 "The debug paths are separate code executed only with logging enabled, which no test does.",
 [S+"config.py", S+"rfCircuit.py", S+"rfBase.py", S+"ReadTSF.py"], [("logident/ident", S+"config.py"), ("__str__/asstr/listBlocks/findObj/getpos", S)], None, ["getS before/after"])

prop("C17", "The reported maximum voltage is the true maximum over the whole network",
 "The maximum-voltage analysis returns the largest voltage magnitude over all nodes and, for line sections, over all interior points (up to the sampling of the section), for any excitation; the reported location is where it occurs. The accompanying standing-wave data agree with the node voltages of the solution and with the line's own standing wave, and everything scales linearly with the excitation.",
 ["programs", "inputs"], "all circuits and single elements, excitations, reference impedances, matched and mismatched lines including maxima at ends, interior and flat envelopes",
 "Which point is the maximum depends on the case; tests run one case and do not check the number.",
 [S+"rfCircuit.py", S+"rfTRL.py", S+"maxfun.py", S+"rfRLC.py", S+"rfObject.py", S+"rfBase.py"], [("rfCircuit.maxV", S+"rfCircuit.py"), ("rfTRL.maxV", S+"rfTRL.py"), ("maxfun", S+"maxfun.py"), ("maxV of other classes", S)], None, ["maxV return value"])

prop("C18", "Positions are consistent through every level of a circuit",
 "The position reported for a port or node is, at the time of building, the sum of the relative positions of all enclosing blocks and the element's own port position, the external ports of a circuit carry the positions of the nodes they stand for, and each stays attached to its own port however ports are joined, terminated, re-ordered or removed. Standing-wave data of lines are placed accordingly.",
 ["programs", "histories"], "all nested circuits with relative positions, all build orders and port re-orderings",
 "One mis-ordered list entry shows only for specific orders of building and terminating.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfTRL.py"], [("rfCircuit.getpos", S+"rfCircuit.py"), ("rfCircuit.xpos bookkeeping", S+"rfCircuit.py"), ("rfCircuit.maxV", S+"rfCircuit.py")], [("xpos", "positions of the free ports")], ["getpos", "xpos", "maxV"])

prop("C19", "De-embedding is the inverse of embedding",
 "Removing a known network, or a known line length, that was attached to some or all ports of a device returns the original device's response at every frequency; the ports that remain are the announced ones in a known order. Non-affected ports and the caller's description of what to remove are left alone.",
 ["inputs", "programs"], "all devices (1..N ports), invertible embedding networks, subsets of ports, line lengths of either sign, all specification forms",
 "Tests de-embed one case and only plot the result.",
 [S+"rfCircuit.py", S+"rfObject.py"], [("rfCircuit.deembed", S+"rfCircuit.py"), ("rfObject.deembed", S+"rfObject.py")], None, ["getS after deembed"])

prop("C20", "Port naming and build order only permute the answer",
 "Announcing an external port order, renaming block ports by list, mapping or pattern, and adding, joining or terminating in another order change nothing but the order or names of rows and columns; the reported port list always labels the matrix's rows and columns correctly, in scattering matrices, solutions and excitations alike. An announced order that does not match the actual ports is refused, and so is a list or mapping of names that does not fit the ports of the block.",
 ["programs", "configurations"], "all permutations of port order and build order, all renaming forms, first and later calls",
 "Permutation errors cancel for symmetric test devices and appear only for a non-trivial order.",
 [S+"rfCircuit.py", S+"rfObject.py"], [("rfCircuit.extS (Portnames)", S+"rfCircuit.py"), ("rfCircuit.addblock (ports)", S+"rfCircuit.py"), ("rfCircuit.connect", S+"rfCircuit.py")], [("ports, Portnames", "labels")], ["getS", "Solution", "ports"])

prop("C21", "Composition conserves power, passivity and reciprocity",
 "A circuit made of passive blocks is passive, of lossless blocks and reactive terminations is lossless, and of reciprocal blocks is reciprocal, at every frequency. For any excitation the net power entering the external ports equals the sum of the powers absorbed by all blocks and terminations.",
 ["programs", "inputs"], "all circuits over lossless, lossy and non-reciprocal blocks, all excitations",
 "It is a global balance over every element of any network; no test computes one.",
 [S+"rfCircuit.py", S+"rfTRL.py", S+"rfRLC.py", S+"rfCoupler.py"], [("rfCircuit.connect junction equations", S+"rfCircuit.py"), ("rfCircuit.Solution", S+"rfCircuit.py")], None, ["getS", "Solution"])

prop("C22", "Hierarchy is transparent",
 "Grouping any part of a network into a sub-circuit, to any depth and with any port renaming or reference impedance, gives the same external response, the same voltages and currents at corresponding nodes and the same maximum voltage as the flat network. Using one sub-circuit object in several places gives the same as separate equal objects, and replacing a nested block affects only the addressed instance. Circuits of any level that are also described by touchstone data answer with these data when they are asked for, and as the circuit when not.",
 ["programs"], "all partitions of networks into nested sub-circuits, shared instances, replacement at depth",
 "Tests nest one level once; the equivalence ranges over all groupings.",
 [S+"rfCircuit.py"], [("rfCircuit.getS recursion", S+"rfCircuit.py"), ("rfCircuit.Solution recursion", S+"rfCircuit.py"), ("rfCircuit.addblock (dotted replacement)", S+"rfCircuit.py")], None, ["getS", "Solution", "maxV"])

prop("C23", "A refused operation leaves no trace",
 "When building, wiring, terminating, setting, tabulating, asking or writing is refused with an error because of an invalid argument (unknown or already used port, wrong number of ports, wrong keyword, unknown attribute, size mismatch), the object answers every later question and accepts every later operation exactly as if the refused call had not been made; so does every other object after a refused construction, and a refused writing leaves an existing file as it was and creates none.",
 ["fault_sequences", "histories"], "all invalid calls at any point of any build program, followed by any valid continuation",
 "It needs a failing call followed by continued use, which tests never do.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfRLC.py", S+"rfTRL.py", S+"rfObject.py"], [("rfCircuit.addblock/connect/terminate/set", S+"rfCircuit.py"), ("rfObject.setS", S+"rfObject.py")], None, ["getS, ports, xpos after the error"])

prop("C24", "Caller data and internal state never share storage",
 "Arguments handed to the library (dictionaries, lists, arrays) are not modified by it, and modifying a returned array or list, or the caller's own argument afterwards, never changes what an object returns later.",
 ["histories", "inputs"], "all public calls taking or returning mutable data, mutation by the caller before or after any later call",
 "Aliasing is invisible unless the caller mutates at the right moment.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfRLC.py", S+"rfTRL.py", S+"rfObject.py"], [("rfCircuit.getS cache", S+"rfCircuit.py"), ("rfCircuit.addblock(ports, params)", S+"rfCircuit.py"), ("rfBase.get1S", S+"rfBase.py"), ("rfRLC.getS(params)", S+"rfRLC.py"), ("rfObject.deembed(ports)", S+"rfObject.py")], None, ["arguments after the call", "later getS"])

prop("C25", "File and path lookup follows the documented search order",
 "Looking for a file by name or pattern searches the directories of the environment variable, then the user's, then the application's directories, each with its subdirectories, and returns the last matching name of the first place that has one; ~ is expanded, missing directories are skipped or refused as asked, and failure is an error (findpath) or an empty string (existspath). A dictionary read from a file or from text is the same, comments ignored, and only literals are accepted: nothing is executed. Lines read from a path, a text or an open stream are the same.",
 ["configurations", "inputs"], "all directory layouts, environment settings and name forms; all source kinds",
 "It depends on the file system layout and environment, which tests do not vary.",
 [S+"findpath.py", S+"ReadDictData.py", S+"getlines.py"], [("findpath", S+"findpath.py"), ("ReadDictData", S+"ReadDictData.py"), ("getlines", S+"getlines.py")], None, ["return value"])

prop("C26", "A model file describes the same circuit as building it by hand",
 "Building a circuit from a textual antenna/line model gives the same ports, response, solution and positions as assembling the described sections, terminations and junctions by hand, for every variable override, unit convention, section kind and reference impedance. Overriding a variable has the effect of editing it in the file.",
 ["inputs", "configurations"], "all model descriptions over the documented section kinds, terminations, junctions and variables; overrides by keyword and later changes",
 "The only model-file test in the suite does not run here, and it would check one file.",
 [S+"rfGTL.py"], [("rfGTL", S+"rfGTL.py")], None, ["rfGTL.getS", "rfGTL.Solution"])

prop("C27", "Post-processing of standing-wave data reports what it was given",
 "Scaling standing-wave data scales every voltage and no position, the textual and graphical summaries show the true extremes of each section, and the formatted matrices and comparisons of scattering data show the numbers they were given, for any nesting of the data; except for scaling, which acts in place, none of them modifies its input.",
 ["inputs"], "all nested standing-wave results of maximum-voltage analyses, all matrices and formats",
 "Tests call the plot once and look at nothing.",
 [S+"plotVSWs.py", S+"printMatrices.py", S+"compareSs.py", S+"str_dict.py"], [("scaleVSW/strVSW/plotVSWs", S+"plotVSWs.py"), ("strM", S+"printMatrices.py"), ("compareSs", S+"compareSs.py"), ("str_dict", S+"str_dict.py")], None, ["return values", "plotted data"])

prop("C28", "Independent objects never influence each other, in any interleaving",
 "Objects that share nothing (no common object, file or argument) do not influence each other: whatever is built, set, asked, refused, copied, converted, read or printed with one of them, before, between or - in other threads of the same process - during the operations on another one, every answer of that other one is the same as in a process of its own. Equal names, identifiers, frequencies and shapes make no difference, and no call leaves anything behind in defaults, in the package or in its classes.",
 ["schedules", "histories", "programs"], "all sets of programs over the whole package that share no object, file or package setting, with equal or different names, frequencies and values, and all interleavings of their operations, calls and lines",
 "Tests use one object at a time in one thread; what one call leaves behind for an unrelated one shows only in particular sequences and schedules.",
 [S+"rfTRL.py", S+"rfCircuit.py", S+"rfBase.py", S+"rfObject.py", S+"rfGTL.py", S+"resolveTLparams.py", S+"ConvertGeneral.py", S+"str_dict.py", S+"config.py"],
 [("all classes and functions", S), ("rfTRL.solved", S+"rfTRL.py"), ("_newID", S+"config.py"), ("str_dict", S+"str_dict.py")],
 [("rfTRL.solved", "solutions kept for one line"), ("default arguments", "must stay as written")], ["return values of all queries", "text output"])

prop("C29", "Descriptions and lookups show the present state of the object",
 "At any point of its life the textual description of an object (str, asstr, at any depth) names its actual ports with their positions, its blocks with the mapping of their ports onto those of the objects behind them, its terminations and its present parameter values; where an evaluation is shown, it is the last one, with its frequency, and its S-matrix is that of the present definition; the equations listed are those whose solution it is. The list of blocks and the lookups by (dotted) block name report every block of every level once, and the object in that place; unknown names give nothing.",
 ["programs", "histories"], "all circuits, nested and shared ones, elements and model files, before and after any sequence of answers, settings, terminations, replacements, announced orders and copies",
 "Tests print a few objects and look at nothing; what is shown depends on the history of the object.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfTRL.py", S+"rfRLC.py", S+"rfCoupler.py", S+"rfArcObj.py", S+"rfObject.py", S+"rfGTL.py", S+"resolveTLparams.py"],
 [("rfCircuit.__str__/asstr", S+"rfCircuit.py"), ("rfCircuit.listBlocks/findObj/object", S+"rfCircuit.py"), ("rfTRL.__str__", S+"rfTRL.py"), ("rfRLC.__str__", S+"rfRLC.py"), ("rfCoupler.__str__", S+"rfCoupler.py"), ("rfGTL.__str__", S+"rfGTL.py")],
 None, ["text of str/asstr", "return values of listBlocks, findObj, object"])

prop("C30", "How a value is passed makes no difference",
 "The same value passed in another form gives the same answers: a whole number as int, float or numpy number, a real one as complex, a sequence as list, tuple or array (of whole numbers too), a matrix as nested lists or array of any memory layout, a mapping or keywords in any order, an argument by position or by keyword - when constructing, adding blocks, connecting, terminating, setting, asking, exciting or modifying tables. No form of a valid value is silently ignored.",
 ["inputs", "programs"], "all programs over circuits, elements, lines and tables, all forms of their numbers, sequences, matrices, mappings and calls",
 "Tests pass plain floats and lists; what another form does depends on type tests spread over the package.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfTRL.py", S+"rfRLC.py", S+"rfObject.py", S+"resolveTLparams.py", S+"ConvertGeneral.py"],
 [("rfTRL.__init__ (xpos, dx)", S+"rfTRL.py"), ("rfObject.sortports/deembed", S+"rfObject.py"), ("rfCircuit.terminate/set/maxV", S+"rfCircuit.py"), ("rfBase.getS/maxV", S+"rfBase.py")], None, ["getS", "Solution", "maxV", "VISWs", "ports, xpos"])

prop("C31", "Using the library leaves the rest of the process as it was",
 "No call of the library, successful or refused, changes anything of the process it runs in: the working directory, environment, import path, standard streams, hooks, warning filters, numerical error handling and print options of numpy, random generators, locale, signal handlers, logging, threads, defaults of matplotlib or of the package, and no file is left open. Only WriteTSF and write_tsf create or modify files, and only the one asked for; only the plotting functions make figures. The import changes nothing but the exception hook, the logger and its log file; a process ends with its own status, an uncaught error is reported, an empty log is removed and one that was written is kept, wherever the process has moved to.",
 ["histories", "configurations"], "all public functions and methods, called from every workload of the other checks (valid and refused calls, files, drawings), with and without the diagnostic log, at any numerical and printing setting of the caller; imports and ends of processes",
 "What a call leaves behind in the process is seen by none of its results; it shows in unrelated code, later.",
 [S+"config.py", S+"maxfun.py", S+"getlines.py", S+"findpath.py", S+"ReadDictData.py", S+"ReadTSF.py", S+"WriteTSF.py", S+"rfBase.py", S+"rfGTL.py", S+"rfTRL.py", S+"plotVSWs.py", S+"compareSs.py"],
 [("maxfun (warnings)", S+"maxfun.py"), ("CleanUpLogFile/CleanUpLogFile1/setLogLevel", S+"config.py"), ("getlines", S+"getlines.py"), ("findpath", S+"findpath.py"), ("rfGTL.__init__", S+"rfGTL.py"), ("write_tsf", S+"rfBase.py")],
 None, ["state of the process before and after each call", "system requests during a call (audit events)", "exit status, output and files of processes"])

prop("C32", "The surroundings of the process make no difference",
 "The same program gives the same answers, the same refusals, the same files and the same figures whatever the process it runs in: hash seed, optimised mode, thread, depth of the stack, code with or without a source, garbage collection, contents of freshly allocated memory, state of the random generators, floating point error handling, print options and warning filters, logging set up by the application, style of the figures, working directory, environment variables, time zone, locale, size of the terminal. What is documented to depend on them (search of files by directory and environment variable, descriptions that show arrays as numpy prints them, refusals asked for by turning warnings into errors) is excepted.",
 ["configurations", "programs"], "all programs over the whole package and all settings of the process and interpreter named in the statement",
 "Tests run in one process with one configuration; a dependence shows on another machine or in another application only.",
 [S+"rfCircuit.py", S+"rfBase.py", S+"rfTRL.py", S+"rfObject.py", S+"rfGTL.py", S+"resolveTLparams.py", S+"maxfun.py", S+"findpath.py", S+"ReadTSF.py", S+"WriteTSF.py", S+"config.py"],
 [("rfCircuit.solve/Solution/maxV", S+"rfCircuit.py"), ("tsf2str", S+"rfBase.py"), ("maxfun", S+"maxfun.py"), ("rfObject.__setitem__ (empty_like)", S+"rfObject.py"), ("whoami/logident", S+"config.py")],
 None, ["value, refusal, printed text and figure of every public call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
