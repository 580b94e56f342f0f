import json
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})

p("C01","Chemical formulas resolve to their exact mass fractions",
"For every chemical formula built from defined elements with integer or decimal subscripts and arbitrarily nested, repeated parenthesised groups, the composition obtained equals the stoichiometric mass fractions (sum over occurrences of multiplicity times atomic mass, normalised to one), listing exactly the elements of the formula. The result does not depend on how the same content is written (group expanded, order of atoms, subscript 1 written or omitted). A text that is not such a formula, including one naming an undefined element, yields an empty composition or an error and never a composition of something else.",
["inputs"],"All formulas over the defined element symbols: any nesting of groups, any multiplicities (integers and decimals, large and small), any number of terms; and all near-miss texts.",
"The tests only resolve a handful of fixed simple names; they never nest groups, put atoms after a group, use large or decimal multiplicities or compare with stoichiometry.",
["src/fisx_elements.cpp"],[("parseFormula / getCompositionFromFormula","src/fisx_elements.cpp Elements::parseFormula, Elements::getCompositionFromFormula")],
["Elements.getComposition","Layer.getComposition"])

p("C02","Materials resolve to normalised elemental composition at any nesting",
"The composition of a name is that of the element or chemical formula it is, and otherwise that of the registered material of that name, its components being resolved recursively in the same way and weighted by their normalised mass fractions; fractions are positive and sum to one. After any history of registering, replacing, removing and querying materials, resolution reflects exactly the materials currently registered, registering a duplicate is rejected unless replacement was asked for, and a rejected operation leaves the registry unchanged. Materials supplied with a call take part in that call only.",
["inputs","histories"],"All compositions (any amounts > 0, any scale), all nesting shapes, all sequences of registry operations including rejected ones.",
"Tests register no more than one fixed material and never nest, replace or remove.",
["src/fisx_material.cpp","src/fisx_elements.cpp","python/cython/PyMaterial.pyx"],[("composition normalisation","src/fisx_material.cpp Material::setComposition"),("recursive resolution","src/fisx_elements.cpp Elements::getComposition"),("registry","src/fisx_elements.cpp addMaterial/removeMaterial/removeMaterials/createMaterial/setMaterialComposition")],
["Elements.getComposition","Elements.getMaterialNames","Material.getComposition"],[("materialList","registered materials in registration order","src/fisx_elements.h")])

p("C03","The element library reproduces the data files it was given",
"After construction from a data directory, every element's binding energies, shell constants (fluorescence and Coster-Kronig yields), radiative and non-radiative transition tables equal the values in the corresponding rows and columns of the files, and atomic number, mass, density, name, row and column equal the built-in element table. Loading another binding-energy, cross-section or shell file replaces exactly the data of that kind and of that shell for all elements in the file, the last loaded file being the one in effect and the one reported.",
["inputs","configurations","histories"],"All well-formed data files (any values, any columns order the format allows) and all sequences of file loads, for all elements.",
"The tests that load the library need a file that is not distributed and do not run; nothing compares loaded values with file contents.",
["src/fisx_elements.cpp","src/fisx_epdl97.cpp","src/fisx_defaultelementsinfo.h","src/fisx_simplespecfile.cpp"],[("file loading","src/fisx_elements.cpp initialize, setShellConstantsFile, setShellRadiativeTransitionsFile, setShellNonradiativeTransitionsFile, setMassAttenuationCoefficientsFile"),("binding energies","src/fisx_epdl97.cpp loadBindingEnergies")],
["Elements getters","Element getters"])

p("C04","Tabulated photon cross sections are reproduced and log-log interpolated",
"For every element and energy, each process coefficient (coherent, Compton, photoelectric by subshell and remaining shells) equals the log-log interpolation between the two neighbouring table points (linear when one of the two values is zero), exactly the table value at a table energy, taking the upper value at an edge, and a subshell contributes nothing below its binding energy. At every energy the photoelectric coefficient equals the sum of its subshell parts and the total equals photoelectric plus coherent plus Compton (plus pair when present). Photoelectric weights are the subshell parts divided by the photoelectric coefficient.",
["inputs","configurations"],"All table contents (any grid, any edges), all elements, all energies: between points, at points, at and just around edges, below the first and above the last one.",
"Requires the undistributed cross-section file; the tests that run never evaluate a coefficient.",
["src/fisx_epdl97.cpp"],[("interpolation","src/fisx_epdl97.cpp getMassAttenuationCoefficients, getInterpolationIndices"),("table preparation","src/fisx_epdl97.cpp loadCrossSections, getPhotoelectricWeights")],
["EPDL97.getMassAttenuationCoefficients","EPDL97.getPhotoelectricWeights"],[("muInputValues","per element table rows","src/fisx_epdl97.h")])

p("C05","User-supplied attenuation tables override consistently",
"When an element is given its own attenuation table, the coherent, Compton and pair coefficients follow it exactly at its energies and by log-log interpolation in between, and each subshell photoelectric part follows its own table likewise, restricted to energies at or above the shell's binding energy. When the library is given a total photoelectric table, every subshell whose edge the table shows (all of them when it shows none) receives its library share of the given values. The photoelectric coefficient is always the sum of its parts and total the sum of all processes, finite and non-negative, and other elements stay unchanged.",
["inputs","configurations","histories"],"All admissible tables (increasing energies with repeated edge energies, positive values), any element, any sequence of overrides, any query energy in range.",
"No running test sets or evaluates a user table.",
["src/fisx_element.cpp","src/fisx_elements.cpp"],[("per element tables","src/fisx_element.cpp setMassAttenuationCoefficients, setPartialPhotoelectricMassAttenuationCoefficients, getMassAttenuationCoefficients"),("merging with the library partials","src/fisx_elements.cpp setMassAttenuationCoefficients, setMassAttenuationCoefficientsFile")],
["Element.getMassAttenuationCoefficients","Elements.getMassAttenuationCoefficients"])

p("C06","Mixtures attenuate as the mass-fraction weighted sum of their elements",
"For every formula, registered material, dictionary of mass fractions or layer, every process coefficient equals the sum over elements of normalised mass fraction times the element's coefficient at that energy, so the result is independent of the scale of the amounts, of the order of components and of how the composition was expressed. Asking for a list of energies returns the same values, in order, as asking for each energy alone.",
["inputs","configurations"],"All compositions and all energy lists, through every query route (library, layer, layer of an XRF set-up).",
"No running test evaluates a compound's coefficients.",
["src/fisx_elements.cpp","src/fisx_layer.cpp","src/fisx_xrf.cpp","python/cython/PyElements.pyx"],[("mixture rule","src/fisx_elements.cpp getMassAttenuationCoefficients"),("layer routes","src/fisx_layer.cpp, src/fisx_xrf.cpp getLayerMassAttenuationCoefficients")],
["Elements.getMassAttenuationCoefficients","Layer.getMassAttenuationCoefficients","XRF.getLayerMassAttenuationCoefficients"])

p("C07","Shell transition tables become normalised branching ratios",
"From radiative and non-radiative transition tables and yields of a shell, the fluorescence ratios are the radiative rates divided by their sum (the total entry excluded), Auger and Coster-Kronig ratios are the non-radiative rates of each kind divided by the sum of that kind, so each set of ratios sums to one whatever the scale of the input. The direct transfer of a vacancy from the shell to another one is fluorescence yield times the radiative ratios into it, plus the Coster-Kronig yields towards it and its share of secondary vacancies, plus the Auger yield (what is left of one) times Auger ratios involving it. Yields adding to more than one are rejected, and a rejected table or set of constants leaves the shell as it was.",
["inputs"],"All transition tables (any labels the format allows, any positive rates, with or without total entry) and all admissible yields, for the K, L and M subshells and every destination.",
"No running test exercises Shell with anything at all; a fixed example would not settle normalisation or label matching.",
["src/fisx_shell.cpp"],[("ratios","src/fisx_shell.cpp _updateFluorescenceRatios, _updateNonradiativeRatios"),("transfer","src/fisx_shell.cpp getDirectVacancyTransferRatios, setShellConstants")],
["Shell getters","Element.getFluorescenceRatios/getAugerRatios/getCosterKronigRatios"])

p("C08","Vacancy cascade and X-ray emission follow the transfer ratios",
"A vacancy distribution after the cascade is the initial one plus, going from the innermost to the outermost shell, every vacancy of a shell transferred to the outer ones by its direct transfer ratios; it is linear in the initial distribution and never reduces a vacancy. The emitted lines of a distribution are, for each shell with vacancies, its vacancies times fluorescence yield (when asked for) times radiative ratio, at an energy equal to the difference of the binding energies of the shells in the line's name. Emission with cascade equals emission without cascade of the cascaded distribution.",
["inputs","configurations"],"All initial distributions over the subshells, all elements, all transition data, every combination of the cascade and yield flags.",
"No running test computes a cascade or a line.",
["src/fisx_element.cpp"],[("cascade","src/fisx_element.cpp getCascadeModifiedVacancyDistribution, fillCascadeCache"),("lines","src/fisx_element.cpp getXRayLinesFromVacancyDistribution, getTransitionEnergy")],
["Elements.getCascadeModifiedVacancyDistribution","Elements.getXRayLinesFromVacancyDistribution"])

p("C09","Excitation factors combine photoionisation, cascade, yield and weight",
"The initial vacancy distribution at an energy is each subshell's photoelectric coefficient divided by the total photoelectric coefficient, with no vacancy in a shell that the energy cannot ionise. For every energy and weight, the excitation of a line is weight times the rate emitted by that distribution after cascade and yield (factor), and that times the photoelectric coefficient (rate), at the line's energy. Giving a list of energies returns, in order, what each energy alone gives, a missing weight list meaning equal weights adding to one and a single weight applying to all.",
["inputs","configurations"],"All elements, energies (in particular around edges), weights and list lengths.",
"No running test evaluates an excitation factor.",
["src/fisx_element.cpp","src/fisx_elements.cpp","python/cython/PyElements.pyx"],[("factors","src/fisx_element.cpp getPhotoelectricExcitationFactors, getInitialPhotoelectricVacancyDistribution")],
["Elements.getExcitationFactors","Elements.getInitialPhotoelectricVacancyDistribution"])

p("C10","Caches and query history never change a result",
"Whatever has been computed before, and however the calculation, cascade and escape caches have been enabled, disabled, filled, updated or cleared, every query returns the value a freshly built library with the same data returns without caches. Changing the data of an element (binding energies, attenuation tables, transitions, yields) or the parameters of a cached escape calculation is fully visible in the next query. The reported cache size and flags agree with the operations performed.",
["histories"],"All sequences of cache operations, data changes and queries, over several elements and energies.",
"History quantifier: no running test touches the caches at all.",
["src/fisx_element.cpp","src/fisx_elements.cpp","src/fisx_detector.cpp","src/fisx_epdl97.cpp"],[("calculation cache","src/fisx_element.cpp fillCache, updateCache, clearCache, setCacheEnabled"),("cascade cache","src/fisx_element.cpp fillCascadeCache, emptyCascadeCache"),("escape caches","src/fisx_elements.cpp updateEscapeCache, isEscapeCacheCompatible; src/fisx_detector.cpp getEscape")],
["all queries of Elements, Element, EPDL97, Detector"],[("muCache / excitationFactorsCache / cascadeCache","per element caches","src/fisx_element.h"),("detectorEscapeCache","escape cache and the parameters used","src/fisx_elements.h"),("escapePeakCache","per detector escape cache by label","src/fisx_detector.h")])

p("C11","Excitable shells, peak families and lines respect the edges",
"At a given energy the excited shells of an element are exactly those whose binding energy is positive and below the energy. The peak families reported for an element, a list of elements, a formula, a material or a layer are exactly the excited K, L and M subshells with non-zero fluorescence yield of the elements present, each once, with their binding energies and in increasing order of them. The emitted lines are exactly the radiative transitions of those excited shells, each at its transition energy.",
["inputs","configurations"],"All energies (in particular at and next to edges), all elements, element lists, materials and layers, all data sets.",
"Running tests construct layers but never ask for a family or line.",
["src/fisx_element.cpp","src/fisx_elements.cpp","src/fisx_layer.cpp","src/fisx_xrf.cpp"],[("edges","src/fisx_element.cpp getExcitedShells, getEmittedXRayLines"),("families","src/fisx_elements.cpp getPeakFamilies; src/fisx_layer.cpp getPeakFamilies")],
["Elements.getPeakFamilies","Layer.getPeakFamilies","Elements.getEmittedXRayLines"])

p("C12","Escape peaks follow the detector fluorescence model",
"For a detector composition and incident energy, there is one escape peak per line the energy can excite, at the incident energy minus the line energy, whose ratio is the analytic one (half of the line's share of the attenuation times the geometric factor of angle and attenuation ratio, corrected for finite thickness), provided it exceeds the intensity threshold. Ratios are non-negative and scale-independent in the composition, a lower threshold only adds peaks, and asking a detector, with or without label and update, gives the same as asking the library with the detector's composition and angle as a thick detector.",
["inputs","configurations","histories"],"All compositions, energies, thresholds, angles and thicknesses; all detectors and all label/update histories.",
"No running test computes an escape peak.",
["src/fisx_elements.cpp","src/fisx_detector.cpp"],[("escape ratio","src/fisx_elements.cpp getEscape"),("detector route","src/fisx_detector.cpp getEscape, setMinimumEscapePeakEnergy, setMinimumEscapePeakIntensity, setMaximumNumberOfEscapePeaks")],
["Elements.getEscape","Detector.getEscape"])

p("C13","Layer transmission obeys Beer-Lambert at any angle",
"The transmission of a layer at an energy and angle is exp(-mu density thickness / sin angle) for the covered fraction of the layer plus one for the uncovered fraction, lies in [0, 1], does not increase with density or thickness, and is the same however the layer's composition is specified and whether energies are asked for one by one or as a list, through the layer, the detector or the XRF set-up. For a fully covered layer the transmissions of two layers of the same material multiply to that of one layer with both thicknesses. A layer whose density or thickness is not set to a positive value is rejected, or takes the values of its material when it has one.",
["inputs","configurations"],"All materials, energies, densities, thicknesses, covered fractions and angles.",
"The running tests build layers but never evaluate transmission on more than nothing.",
["src/fisx_layer.cpp","src/fisx_xrf.cpp","src/fisx_detector.cpp"],[("transmission","src/fisx_layer.cpp getTransmission; src/fisx_xrf.cpp getLayerTransmission"),("material defaults","src/fisx_layer.cpp setMaterial")],
["Layer.getTransmission","Detector.getTransmission","XRF.getLayerTransmission"])

p("C14","Geometric efficiency is the solid angle of the detector",
"Area and diameter of a detector are always consistent (area = pi/4 diameter squared), whichever was set last, and values that are not admissible are rejected leaving the detector unchanged. The geometric efficiency seen from a sample layer is the solid angle fraction 0.5 (1 - d / sqrt(d^2 + r^2)) with d the distance corrected by the thickness, along the exit direction, of the layers between that layer and the reference layer; it is one when no diameter is given, one half at zero distance, within [0, 1], and decreases with the distance.",
["inputs","configurations"],"All diameters, areas, distances, sample stacks, exit angles, reference and observed layers, and all setter sequences.",
"Tests check only getters of one fixed detector.",
["src/fisx_detector.cpp","src/fisx_xrf.cpp"],[("detector","src/fisx_detector.cpp setActiveArea, setDiameter, setDistance"),("efficiency","src/fisx_xrf.cpp getGeometricEfficiency")],
["XRF.getGeometricEfficiency","Detector getters"])

p("C15","Transmission tables interpolate what they were given",
"A user transmission table returns its own values at its energies, the linear interpolation between the neighbouring points elsewhere inside, the first value below and the last value above the table, for every energy, alone or in a list. The result does not depend on whether the points came as lists in increasing energy or as a mapping in any order, and a repeated energy in the lists acts as a step. Lists out of order and tables with negative values are rejected, leaving the previous one. Setting a new table replaces the previous one completely.",
["inputs","histories"],"All tables (any size, spacing, order, repeated energies) and all query energies including those at, just below and just above points.",
"The tests sample one two-point table.",
["src/fisx_transmissiontable.cpp","python/cython/PyTransmissionTable.pyx"],[("table","src/fisx_transmissiontable.cpp setTransmissionTable, getTransmission")],
["TransmissionTable.getTransmission","TransmissionTable.getTransmissionTable"])

p("C16","A beam is a sorted, normalised set of rays",
"A beam holds exactly the rays it was given, in increasing energy, each energy keeping its own weight, characteristic flag and divergency, with the weights divided by their sum so that they add to one. Missing weights mean equal weights, and the order in which rays are given and the scale of the weights do not matter. Setting a beam replaces the previous one completely, and the XRF set-up uses the beam last set by any route.",
["inputs","histories"],"All ray lists (any order, ties, any weights and optional arguments) and all sequences of setters.",
"No running test sets a multi-ray unordered beam.",
["src/fisx_beam.cpp","src/fisx_xrf.cpp","src/fisx_xrfconfig.cpp","python/cython/PyBeam.pyx"],[("beam","src/fisx_beam.cpp setBeam, normalizeBeam, getBeamAsDoubleVectors")],
["Beam.getBeamAsDoubleVectors","XRF results"])

p("C17","Special functions agree with their integral definitions",
"For every argument in their domain, the exponential integrals, the error functions and de Boer's D, L0 (intralayer), V and X (interlayer) functions agree, within the stated accuracy of the approximations used, with their defining integrals, are continuous where branches of the approximation meet, and satisfy their recurrences, symmetries and limits (thin and thick target).",
["inputs"],"All real arguments in the domains, in particular on both sides of every branch point.",
"No running test evaluates them; fixed samples cannot cover branch boundaries.",
["src/fisx_math.cpp"],[("functions","src/fisx_math.cpp E1, En, deBoerD, deBoerL0, deBoerX, deBoerV, erf, erfc")],
["Math.*"])

p("C18","Primary fluorescence equals the fundamental-parameters formula",
"For every sample stack, beam, geometry and set of filters, the primary intensity of a line from a layer is the sum over rays of ray weight times the transmission of filters (at normal incidence) and of the layers above (at the incidence angle), times the excitation rate of the element, times the self-absorption integral over the layer depth along incidence and exit angles, times mass fraction when asked for. With mass fractions asked for, a line is present only in layers that contain the element. The intensity grows with the element's layer thickness up to the thick-target limit.",
["inputs","configurations"],"All stacks of layers, compositions, beams, angles (sample side and transmission), filters, user tables, elements and families.",
"No running test computes a fluorescence intensity.",
["src/fisx_xrf.cpp","src/fisx_multilayer.cpp"],[("primary","src/fisx_multilayer.cpp getMultilayerFluorescence")],
["XRF.getMultilayerFluorescence [..]['primary']"])

p("C19","Secondary fluorescence equals the enhancement integrals",
"With secondary excitation enabled, each enhancement contribution to a line (from every line able to ionise the shell, of every element, emitted in the same or in another layer) equals the intralayer or interlayer enhancement integral for that pair of lines and layers, summed over beam rays, within the stated cut-offs; the line's secondary intensity is the sum of its contributions. Contributions are non-negative, are absent when nothing in the sample can excite the line, and interlayer ones vanish when the layers in between absorb everything.",
["inputs","configurations"],"All stacks, beams, geometries, elements and exciting lines.",
"No running test computes a secondary intensity.",
["src/fisx_multilayer.cpp","src/fisx_math.cpp"],[("secondary","src/fisx_multilayer.cpp getMultilayerFluorescence")],
["XRF.getMultilayerFluorescence [..]['secondary'] and per contribution keys"])

p("C20","Reported intensities are complete and self-consistent",
"For every reported line, rate = (primary + secondary (+ tertiary)) times efficiency (escape losses accounted for, each escape peak adding what the parent line loses), efficiency is the product of the transmissions of the layers above at the exit angle, the attenuators, user tables, the geometric efficiency and the detector absorption, and energy is the line energy. The answer for an element, family and layer does not depend on what else is requested in the same call, on the order or repetition of requests or on the request form used (tertiary excitation, the correction estimated from the other requested lines, aside), and using mass fractions multiplies everything by the element's mass fraction in the layer. A request for all layers returns the union of the requests for each layer.",
["inputs","configurations","histories"],"All requests over all set-ups, all flags, detectors with and without escape, and repeated calls on the same set-up.",
"No running test computes a rate.",
["src/fisx_xrf.cpp","src/fisx_multilayer.cpp","src/fisx_detector.cpp"],[("bookkeeping","src/fisx_multilayer.cpp getMultilayerFluorescence")],
["XRF.getMultilayerFluorescence","XRF.getFluorescence"],[("recentBeam, lastMultilayerFluorescence","state kept between calls","src/fisx_xrf.h")])

p("C21","Intensities are invariant under physically equivalent set-ups",
"Splitting a layer into sublayers of the same material, expressing its material differently, adding a layer or filter that absorbs nothing, exchanging density for thickness at equal areal density, splitting or permuting beam rays, and scaling all weights leave the summed detected primary intensity (and, splitting aside, every intensity) unchanged. A beam of several rays gives the weighted sum of the intensities of its single rays. Results follow the set-up in force: changing one element of the set-up gives the same as building the final set-up afresh.",
["inputs","configurations","histories"],"All set-ups and all such transformations, and all sequences of set-up changes.",
"Metamorphic relations over all set-ups; no running test computes an intensity.",
["src/fisx_xrf.cpp","src/fisx_xrfconfig.cpp","src/fisx_multilayer.cpp","src/fisx_beam.cpp"],[("calculation","src/fisx_multilayer.cpp getMultilayerFluorescence"),("set-up","src/fisx_xrf.cpp setters, src/fisx_xrfconfig.cpp")],
["XRF.getMultilayerFluorescence"])

p("C22","Specfiles are read back completely and in order",
"For every well-formed specfile, the number of scans, each scan's column labels and data rows are exactly the ones in the file, in file order, independent of line endings, blank lines, comment lines and trailing newline, and reading scans in any order or repeatedly gives the same answers. A scan index out of range is reported as an error, and a file that cannot be opened has no scans.",
["inputs","histories"],"All well-formed files (any number of scans, labels, rows, numeric notations, line endings) and all read sequences.",
"The tests read one distributed file.",
["src/fisx_simplespecfile.cpp","python/cython/PySimpleSpecfile.pyx"],[("reader","src/fisx_simplespecfile.cpp setFileName, getScanLabels, getScanData")],
["SimpleSpecfile getters"])

p("C23","Ini files are read back section by section",
"For every ini file, the sections are those of the file, in order, and reading a section returns exactly its key/value pairs, with comments dropped and multi-line values joined (surrounding white space is not significant), and nothing of any other section; a missing section reads as empty. Section lookup ignores letter case only when asked to, the sub-sections of a parent are exactly the sections below it, and re-reading another file with the same object forgets the previous one.",
["inputs","histories"],"All well-formed ini files and all sequences of reads.",
"No running test reads an ini file.",
["src/fisx_simpleini.cpp","src/fisx_simpleini.h"],[("reader","src/fisx_simpleini.cpp readFileName, readSection, getSubsections"),("value parsing","src/fisx_simpleini.h parseStringAsSingleValue, parseStringAsMultipleValues")],
["SimpleIni.getKeys/readKey"])

p("C24","A PyMca configuration file becomes the equivalent set-up",
"Reading a configuration file gives the set-up it describes: the flagged-on beam energies with their weights, the filters, attenuators, detector, funny filters and sample layers that are switched on, with their materials, densities, thicknesses and geometry, and user-defined materials with their compositions. Entries that are switched off have no influence, the result does not depend on the order of sections or keys nor on what the object held before, and intensities calculated from it equal those of the same set-up entered by hand. Layers set after reading can name the materials of the file.",
["inputs","histories"],"All well-formed configurations and all sequences of reads.",
"Tests that read a configuration need undistributed data; nothing compares a set-up with its file.",
["src/fisx_xrfconfig.cpp","src/fisx_xrf.cpp"],[("reader","src/fisx_xrfconfig.cpp readConfigurationFromFile")],
["XRF.readConfigurationFromFile","XRF getters and results"])

p("C25","Any input text is handled or rejected cleanly",
"For any byte content of a specfile, ini file or configuration file, and for any text given as formula, element, material or transition name, the library either returns or raises an error: it never crashes, reads or writes out of bounds, recurses without bound or hangs, and afterwards it keeps working normally.",
["inputs"],"All byte strings as file contents and all strings as names and formulas.",
"Quantifies over arbitrary malformed input; tests only feed well-formed text.",
["src/fisx_simplespecfile.cpp","src/fisx_simpleini.cpp","src/fisx_xrfconfig.cpp","src/fisx_elements.cpp","src/fisx_shell.cpp"],[("parsers","src/fisx_simplespecfile.cpp, src/fisx_simpleini.cpp, src/fisx_xrfconfig.cpp, src/fisx_elements.cpp parseFormula")],
["process exit, sanitizer reports"])

p("C26","Python objects accept every documented argument form alike",
"Through the Python interface, the same values given as list, tuple, numpy array or (where accepted) scalar, and the same names given as text or bytes, give the same results as each other and as the C++ library, with one entry per requested energy, and objects passed in (layers, materials, detectors, tables, beams) used with all their attributes. Names in results are text (contents of ini files, returned as bytes by SimpleIni, aside), omitted optional arguments behave as their documented defaults, and an argument of the wrong kind, None included, raises an error.",
["inputs"],"All argument forms of all public methods, all values.",
"Tests call the bindings with one form each.",
["python/cython/PyBeam.pyx","python/cython/PyElements.pyx","python/cython/PyXRF.pyx","python/cython/PyLayer.pyx","python/cython/PyDetector.pyx","python/cython/PyMaterial.pyx","python/cython/PyShell.pyx","python/cython/PyElement.pyx","python/cython/PyTransmissionTable.pyx","python/fisx/FisxCythonTools.py"],[("conversions","python/fisx/FisxCythonTools.py; python/cython/*.pyx")],
["Python API"])
p("C27","Concurrent calculations on shared objects give the sequential results",
"Any number of threads may ask the same set-up (XRF) and library (Elements) at the same time, the energies divided over them through the beam given in the call, the GIL being released meanwhile: nobody changing those objects, each answer (intensities, coefficients, excitation factors, compositions, escape ratios, transmissions, efficiencies, mathematical functions, files read) is exactly the one obtained alone, and there is no data race. This holds whatever the caches and materials the library was given before.",
["schedules","inputs"],"All interleavings of any queries of several threads on shared, unchanging objects.",
"No test starts a thread; races show at few interleavings only.",
["src/fisx_xrf.cpp","src/fisx_multilayer.cpp","src/fisx_elements.cpp","src/fisx_element.cpp","src/fisx_layer.cpp","python/cython/PyXRF.pyx"],[("calculation without the GIL","python/cython/PyXRF.pyx; src/fisx_multilayer.cpp XRF::getMultilayerFluorescence")],
["answers to threads, thread sanitizer reports"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
