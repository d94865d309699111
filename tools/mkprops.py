#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of the properties."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

S = "src/"; I = "include/catima/"
CACHE = [("slots", "computed tables per projectile-material-config combination", "src/storage.cpp Data::storage"),
         ("index", "slot that the next computed combination goes to", "src/storage.cpp Data::index")]

prop("P01", "Results do not depend on which queries were made before",
 "Every query returns exactly the value that the same query returns as the first one in a fresh process. This holds whatever queries came before it, in any order, however many distinct projectile-material-configuration combinations they used and whether or not the cache was reset in between.",
 ["histories", "inputs"], "every finite sequence of library calls (range, stopping power, straggling, energy out, single and layered calculations, reaction rate, cache resets) over any number of combinations, including more than the cache can hold",
 "The tests run each query once or twice in a fixed order with a handful of combinations; they never wrap the cache and never compare a query with itself after another history.",
 [S+"storage.cpp", I+"storage.h", S+"catima.cpp", S+"structures.cpp"],
 [("cache lookup and insertion", "src/storage.cpp Data::Get, Data::Add"), ("key comparison", "src/structures.cpp operator==, src/catima.cpp operator==(Config)")], CACHE,
 ["return values of the public functions in include/catima/catima.h"])

prop("P02", "Inputs that differ physically never share a cached result",
 "Two queries that differ, however slightly, in the projectile (mass, proton number, charge state), the material (constituents, their amounts and masses, molar mass, ionisation potential) or any configuration field each get the results computed for their own inputs. Range and stopping power per mass thickness do not depend on the density or thickness of the material object they are asked for.",
 ["inputs", "histories"], "every pair of combinations that agree in all but one field, with the differing field changed by anything from one unit to one representable step, queried in either order",
 "Tests compare clearly different combinations only; sharing shows for near-equal keys and only when the other key was queried earlier in the same process.",
 [S+"structures.cpp", S+"catima.cpp", S+"storage.cpp"],
 [("projectile, material and config equality", "src/structures.cpp, src/catima.cpp"), ("slot match", "src/storage.cpp Data::Get")], CACHE)

prop("P03", "The cache is bounded, has no duplicates and replaces the oldest entry",
 "The number of cached combinations never exceeds the fixed capacity and no combination is stored twice. A combination stays cached, and references to its tables stay valid and unchanged, until as many other combinations as the capacity have been computed after it. A lookup of a cached combination changes nothing; a reset forgets all of them.",
 ["histories"], "every sequence of lookups, insertions and resets over any set of combinations, including several times around the capacity",
 "test_storage.cpp fills the cache once around with one fixed sequence; order-dependent faults (wrong slot after a wrap, duplicate entries, replaced-too-early entries) need other histories.",
 [S+"storage.cpp", I+"storage.h"],
 [("circular insertion", "src/storage.cpp Data::Add"), ("reset", "include/catima/storage.h Data::Reset")], CACHE, ["Data::Get, Data::Add, Data::Reset, Data::get_index, Data::GetN"])

prop("P04", "A configuration passed to a call governs the whole result",
 "When a call is given a configuration, every part of its result is computed with it and is independent of the library-wide default configuration; when none is given the default configuration at the time of the call applies. Calls of the C++ interface never change the default configuration.",
 ["configurations", "histories"], "every combination of default and passed configuration, and every interleaving of changes of the default with calls",
 "Tests keep the default configuration and mostly pass none; a part of the result that silently uses the default agrees with the passed one in all of them.",
 [S+"catima.cpp", S+"calculations.cpp", S+"reactions.cpp", I+"catima.h"],
 [("configuration parameter passed through all layers", "src/catima.cpp calculate, calculate_DataPoint, calculate_tof_from_E; src/reactions.cpp")],
 [("default_config", "library-wide default configuration", "src/catima.cpp")])

prop("P05", "The C interface gives the same answers as the C++ interface",
 "Every C function returns what the corresponding C++ call returns for the same projectile, energy, material (element or predefined compound), thickness and density, using the effective charge formula set in the C defaults at the time of the call and the standard scattering. A non-positive density selects the tabulated one. The answer does not depend on earlier C or C++ calls.",
 ["inputs", "histories", "configurations"], "every function of the C interface, all element and compound targets, every effective charge setting, every earlier sequence of C and C++ calls",
 "The C test calls a few functions once with one setting; it does not compare all fields or change the defaults between calls.",
 [S+"cwrapper.cpp", I+"cwrapper.h"], [("material construction and default synchronisation", "src/cwrapper.cpp")],
 [("catima_defaults", "C side defaults", "src/cwrapper.cpp"), ("default_config", "library-wide default configuration", "src/catima.cpp")])

prop("P06", "Energy is conserved and stopping agrees with the range",
 "For any projectile, material and thickness the outgoing energy lies between zero and the incoming energy, the energy loss equals the difference times the projectile mass, and the projectile is stopped (outgoing energy zero) exactly when the thickness is not less than its range. Otherwise range in minus range out equals the thickness within the solver tolerance.",
 ["inputs", "configurations"], "all projectiles, elements and compounds, energies from the lower threshold to the upper end of the tables, thicknesses from zero to beyond the range",
 "Tests check a few dozen energies and thicknesses at moderate energies; the solver fails only for particular thickness-range combinations.",
 [S+"catima.cpp"], [("energy after thickness solver", "src/catima.cpp energy_out"), ("result assembly", "src/catima.cpp calculate")])

prop("P07", "Every result is complete and consistent in each transport case",
 "Below the lowest energy a result is all zero with survival one; at zero thickness the energy is unchanged with no loss and no straggling; a stopped projectile reports zero for outgoing energy and stopping power, energy and angular straggling and flight time; a transmitted one reports all of them from the incoming and outgoing energy. Range, stopping power and range straggling at the incoming energy are the same in all cases and equal the dedicated functions. For the standard scattering and effective charge models all quantities are finite and not negative.",
 ["inputs", "configurations"], "all projectiles, materials, thicknesses and energies below and at the threshold, up to 1e5 MeV/u, both sides of every case boundary",
 "Tests sample the interior of the cases; the boundaries between them and the agreement of all fields with the dedicated functions are not covered.",
 [S+"catima.cpp", I+"structures.h"], [("case distinction", "src/catima.cpp calculate")])

prop("P08", "Range and outgoing energy are monotonic",
 "The range grows strictly with energy, the outgoing energy never grows with thickness and never falls with incoming energy, and the energy loss never falls with thickness. Range variance and flight time do not fall when the energy loss grows.",
 ["inputs", "configurations"], "all pairs of energies and thicknesses for every projectile, material and configuration",
 "A relation between pairs of calls over a continuum; tests evaluate isolated points.",
 [S+"catima.cpp", I+"spline.h", I+"storage.h"], [("range tables and interpolation", "src/catima.cpp calculate_DataPoint, include/catima/spline.h")])

prop("P09", "Layered calculations chain the layers and totals are their sums",
 "In a stack each layer gives exactly the result of a separate calculation at the energy leaving the previous layer, and the first layer sees the incoming energy. Total energy loss and flight time are the sums, total energy and angular straggling the quadratic sums over the layers, total outgoing energy is that of the last layer and total survival the product (or undefined once any layer is undefined). Once the projectile stops it stays stopped: later layers add no energy loss, straggling or flight time and the total energy and angular straggling are zero.",
 ["inputs", "programs"], "all stacks of any number of layers (including none, zero thickness, repeated and stopping layers), projectiles, energies and configurations",
 "Tests use two fixed stacks; ordering, accumulation and stop-inside cases combine without bound.",
 [S+"catima.cpp", S+"structures.cpp"], [("multi layer loop and accumulators", "src/catima.cpp calculate(Projectile, Phasespace, Layers)")])

prop("P10", "Layer stacks behave as values and keep order",
 "Appending a material or a stack puts its layers in order after the existing ones and leaves the source unchanged, also when a stack is appended to itself. Concatenation yields a new stack and leaves its operands unchanged, later changes of one stack or material never show in another, and total thickness is the sum over layers in both units.",
 ["programs", "histories"], "every program over several stacks and materials using append, concatenate, copy, index and modify",
 "Tests make one or two stacks; aliasing and ordering faults need longer programs.",
 [S+"structures.cpp", I+"structures.h"], [("container operations", "src/structures.cpp Layers::add, operator+, thickness")])

prop("P11", "Splitting or merging layers of one material does not change the transport",
 "Cutting a slab into any number of slabs of the same material and total thickness gives the same outgoing energy, energy loss, survival and flight time within the solver tolerance, and the same stop decision. Zero-thickness layers can be inserted anywhere without effect.",
 ["inputs", "programs"], "all slabs, all ways to cut them and all positions of empty layers",
 "Needs comparison of many decompositions of the same physical target; tests have one.",
 [S+"catima.cpp"], [("energy solver composition", "src/catima.cpp energy_out, calculate")])

prop("P12", "Beam size, divergence and correlation propagate through layers",
 "The total angular variance is the incoming one plus those of the layers. The correlation and the position variance follow from drifting the incoming beam through each layer's length and adding that layer's own scattering contributions, so an unscattered beam follows the free drift, and a point-like beam gets only the layers' contributions. Cutting a slab leaves the total position and angle spread unchanged within integration accuracy.",
 ["inputs", "programs"], "all incoming beam parameters, stacks, cuts of layers, projectiles, energies and scattering models",
 "Tests check two stacks with one beam; the recurrence couples layers, so faults need several layers with unequal lengths and correlated beams.",
 [S+"catima.cpp"], [("phase space accumulation", "src/catima.cpp calculate(Projectile, Phasespace, Layers)")])

prop("P13", "Material composition quantities are mutually consistent",
 "However a material is built, molar mass, weight and molar fractions, densities and number densities agree with the amounts given: stoichiometric numbers of one or more count atoms, smaller ones are weight fractions, a mass of zero means the natural atomic weight, an explicit molar mass wins. Weight fractions add up to one when the amounts do, thickness in length and in mass units convert with the density, and setting one quantity changes no other.",
 ["inputs", "programs"], "all constructor forms and sequences of element additions and setters with any amounts, masses, densities and thicknesses",
 "Tests check selected materials; the rules combine over construction sequences and both amount conventions.",
 [I+"structures.h", S+"structures.cpp", S+"nucdata.cpp"], [("composition bookkeeping", "src/structures.cpp Material, add_element, calculate; include/catima/structures.h fractions")])

prop("P14", "Stopping power follows the documented model in every energy regime",
 "The stopping power is the nuclear part plus the electronic part, where the electronic part is the low-energy model up to 10 MeV/u, the relativistic Bethe model from 30 MeV/u and their linear blend between. The Bethe part consists of the effective charge, ionisation potential, shell, Barkas, density, Lindhard and above 50 GeV/u radiative terms as published; each correction that can be switched off removes exactly its own term.",
 ["inputs", "configurations"], "all projectile and target elements, energies over the whole tables, all correction, low-energy and effective charge settings",
 "Tests compare some tens of points at one per cent or worse with a few projectiles; most elements, regime boundaries and switch combinations are never evaluated.",
 [S+"catima.cpp", S+"calculations.cpp", S+"srim.cpp", I+"data_atima.h", I+"data_ionisation_potential.h"],
 [("regime selection", "src/catima.cpp dedx"), ("Bethe terms", "src/calculations.cpp bethek_dedx_e and helpers")])

prop("P15", "Compound properties are weight-averaged over the constituents",
 "Nuclear and electronic stopping power and energy straggling rate of a compound are the averages of the elemental values weighted with the weight fractions, and inverse radiation and scattering lengths likewise. A custom ionisation potential replaces the elemental ones in all constituents. The result does not depend on the order in which constituents are listed, on splitting a constituent in two entries, or on scaling of stoichiometric numbers.",
 ["inputs", "configurations"], "all mixtures of elements in both amount conventions, all energies and configurations",
 "Tests check water and a few compounds; additivity is a relation over all mixtures.",
 [S+"calculations.cpp", S+"catima.cpp", I+"structures.h"], [("weighted sums", "src/calculations.cpp Material overloads, src/catima.cpp domega2dx")])

prop("P16", "Effective charge follows the selected formula",
 "Each effective charge setting selects its published formula (or the given charge state when switched off) and uses projectile, velocity or energy and target as that formula prescribes, including its special targets and validity limits. In the range where a formula is valid the effective charge is not negative, exceeds the proton number by no more than the published formula does (below one per cent) and approaches it at high velocity.",
 ["inputs", "configurations"], "all settings available in the build, all projectile and target elements, all energies",
 "Tests check one or two values per formula for carbon and a few others.",
 [S+"calculations.cpp", I+"config.h"], [("formula selection and formulas", "src/calculations.cpp z_effective, z_eff_*")])

prop("P17", "Nuclear and low-energy stopping follow their tabulated models",
 "Nuclear stopping follows the universal screened formula in both reduced energy branches, and low-energy electronic stopping follows the proton, helium and heavy-ion scaling with the tabulated coefficients of the selected data set for every target. Both are positive and finite for all elements and vary continuously with energy across the branch limits that the model makes continuous.",
 ["inputs", "configurations"], "all projectile and target elements, energies up to 30 MeV/u, both coefficient sets",
 "Tests touch a few projectile-target pairs; each target has its own coefficients and each projectile class its own branch.",
 [S+"srim.cpp", S+"calculations.cpp", I+"srim.h"], [("scaling and coefficients", "src/srim.cpp"), ("nuclear stopping", "src/calculations.cpp dedx_n")])

prop("P18", "Energy straggling and scattering rates follow the documented models",
 "The energy straggling rate is the Bohr value with effective charge and relativistic Lindhard factor, with the optional shell term, limited by the Firsov value below 30 MeV/u. The scattering rate is inversely proportional to radiation length and to the square of momentum times velocity, proportional to the square of the proton number and to the scattering factor, with the energy constant of the selected model; radiation lengths are the tabulated ones or the published formula.",
 ["inputs", "configurations"], "all projectile and target elements, energies and scattering and straggling settings",
 "Tests check few values with loose tolerance; tabulated elements and settings are mostly not evaluated.",
 [S+"calculations.cpp", S+"catima.cpp"], [("dedx_variance, angular_scattering_power, radiation_length", "src/calculations.cpp"), ("da2dx", "src/catima.cpp")])

prop("P19", "Batch queries equal the single queries element by element",
 "A query for a list of energies returns one value per energy, in order, equal to the single query at that energy, with zero for energies below the threshold. The alternative call forms (energy as argument or in the projectile, plain numbers instead of objects, one layer instead of a material) give identical results.",
 ["inputs"], "all lists of energies of any length, order and repetition, all materials and configurations",
 "Tests use two fixed lists; equality must hold for every list.",
 [S+"catima.cpp", I+"catima.h"], [("vector overloads", "src/catima.cpp dedx_from_range, energy_out")])

prop("P20", "Survival probability follows the reaction cross section",
 "The survival probability is the exponential of minus the number of target atoms times the reaction cross section averaged over the slowing down, lies between zero and one, is one at zero thickness, and never grows with thickness. It is flagged undefined when the energy is below the reaction limit anywhere in the target. Survival of consecutive slabs multiplies, and the cross section and production formulas follow their published form and limits.",
 ["inputs", "configurations"], "all projectiles, targets, compounds, thicknesses and energies above and below the limit, all cross section values",
 "Tests check a few rates; the two averaging branches, the limits and multiplicativity are relations over all inputs.",
 [S+"reactions.cpp", I+"reactions.h", S+"abundance_database.cpp"], [("nonreaction_rate, production_rate, cross section", "src/reactions.cpp")])

prop("P21", "Element and isotope look-ups are total and correct",
 "Atomic weight, density, ionisation potential and isotope look-ups return the tabulated value for every element they cover and the documented fallback outside, for any integer argument. Isotopes of an element are listed by decreasing abundance, their abundances add up to one and their weighted mass agrees with the atomic weight.",
 ["inputs"], "all integer arguments, inside and outside of the tables",
 "Tests look up a few elements and one isotope list.",
 [S+"nucdata.cpp", I+"nucdata.h", S+"abundance_database.cpp", I+"data_ionisation_potential.h"], [("bounds checks and tables", "src/abundance_database.cpp, include/catima/nucdata.h")])

prop("P22", "Predefined materials have the composition their name says",
 "Every predefined material identifier gives the material with the constituents of its chemical formula or published weight fractions and its density, with fractions adding up to one. Element identifiers give the element with natural mass and tabulated density, and unknown identifiers an empty material.",
 ["inputs"], "all identifiers, valid or not",
 "Tests check a handful of the 149 compounds.",
 [S+"material_database.cpp", I+"material_database.h"], [("compound table", "src/material_database.cpp")])

prop("P23", "Energy grid search and interpolation are exact on the grid and smooth between",
 "For every energy the grid search returns the interval containing it, also at the grid points and at both ends, and never one outside of the grid. The interpolating curve is the cubic spline through all tabulated points, with zero curvature or, when asked for, zero slope at the ends and a linear continuation outside, and its derivative is the derivative of that curve. Linear table interpolation returns values between the neighbours, and tridiagonal systems are solved or, when elimination meets a zero pivot, answered with zeros.",
 ["inputs"], "all energies including values next to grid points and outside of the grid, all grids and tabulated values",
 "Tests evaluate some points; off-by-one faults sit within rounding of a grid point.",
 [I+"storage.h", I+"spline.h"], [("index", "include/catima/storage.h EnergyTable, LogVArray, LinearVArray"), ("spline", "include/catima/spline.h")])

prop("P24", "Quadrature rules reach their nominal exactness",
 "Each fixed quadrature rule integrates every polynomial up to its nominal degree exactly on any interval, is linear and additive, changes sign with the interval, and its points are distinct, ordered and inside. The adaptive rule meets the requested tolerance on smooth and moderately peaked integrands over ascending intervals, also when given as several sub-intervals.",
 ["inputs"], "all orders provided, all polynomials up to the nominal degree, all intervals, one and two dimensional",
 "Tests integrate a few functions with loose tolerance, most orders are not instantiated.",
 [I+"glq_integrator.h", I+"gkq_integrator.h", I+"integrator.h"], [("points and weights", "include/catima/glq_integrator.h, include/catima/gkq_integrator.h")])

prop("P25", "The calculator computes what its configuration file asks for",
 "For every valid configuration file the calculator reports, for each requested energy and each material in order, the library results for exactly that projectile, energy, material, density, thickness and configuration, with defaults filled in as documented. Files with missing or malformed required fields are refused with a message and without results, and the exit status tells success from refusal.",
 ["inputs", "configurations"], "all configuration files: every form of energy (number, string, list, range with step or count), material (object or list, element or compound, optional fields) and malformed variants",
 "The repository has no test of the calculator.",
 ["bin/catima_calculator.cpp", "docs/catima_calculator.md"], [("configuration parsing", "bin/catima_calculator.cpp main, json_material")])

prop("P26", "The Mocadi export describes the given beam and stack",
 "The exported file contains the beam energy, mass, number and spreads and one block per layer in order with its element or predefined compound identifier, density and length in the file's units. Reading the numbers back recovers the inputs to the written precision, for every predefined compound and every element.",
 ["inputs", "programs"], "all beams and stacks, all elements and predefined compounds",
 "Tests only check that one file can be written.",
 [I+"convert.h"], [("export", "include/catima/convert.h save_mocadi, materialdb_id")])

prop("P27", "Build options that choose an implementation do not change the physics",
 "With stored or recreated interpolation curves, computed or searched grid index, and with or without reaction rates, every common result is the same. Without the thin-target approximation only energy and angular straggling of thin targets may change, and only within the accuracy of the approximation.",
 ["configurations", "inputs"], "all combinations of the build options available without extra libraries, all inputs",
 "The test suite is built with one combination of the options.",
 ["build_config.in", I+"storage.h", S+"storage.cpp", S+"catima.cpp", I+"constants.h"], [("conditional compilation", "include/catima/storage.h, src/storage.cpp, src/catima.cpp")])

prop("P28", "Tabulated transport quantities are the integrals of the local rates",
 "Differences of range, range variance and angular variance between two energies are the integrals of the inverse stopping power, of the straggling rate over the cubed stopping power, and of the scattering rate over the stopping power. The stopping power derived from the range table agrees with the direct one, and the flight time is the integral of the inverse stopping power over velocity and density.",
 ["inputs", "configurations"], "all projectile-material-configuration combinations and all energy intervals",
 "A relation between functions over a continuum; tests compare at a few energies with per cent tolerance.",
 [S+"catima.cpp"], [("table integration", "src/catima.cpp calculate_DataPoint, calculate_tof_from_E")])

prop("P29", "Precalculated Lindhard coefficients agree with the direct calculation",
 "The tabulated relativistic corrections to stopping and straggling agree, within table precision, with the direct calculation for every tabulated projectile element and energy, scale linearly with the mass deviation, and continue as documented outside of the tabulated energies and elements.",
 ["inputs"], "all projectile elements, masses and energies",
 "Tests compare a few elements at a few energies.",
 [S+"calculations.cpp", I+"generated_LS_coeff.h", "utils/generator.cpp"], [("table lookup", "src/calculations.cpp precalculated_lindhard, precalculated_lindhard_X")])

prop("P30", "Kinematic helpers and energy magnification are consistent",
 "Velocity, Lorentz factor and momentum from energy satisfy the relativistic identities and grow with energy. The energy and momentum magnification of a target are the relative slopes of the outgoing with respect to the incoming energy and momentum, one without material and zero when the beam stops.",
 ["inputs", "configurations"], "all energies, masses, targets and thicknesses",
 "Tests check a few values.",
 [S+"calculations.cpp", S+"catima.cpp", I+"reactions.h"], [("helpers", "src/calculations.cpp gamma_from_T, beta_from_T, p_from_T"), ("magnification", "src/catima.cpp w_magnification")])

prop("P31", "Scattering moments inside a layer are the drift moments of the scattering rate",
 "Angular variance, angle-position covariance and position variance of a layer are the zeroth, first and second moment of the local scattering rate along the slowing-down path over the remaining distance, with the constants of the selected scattering model. They satisfy the moment inequality, and angular straggling from energies equals that of the corresponding thickness.",
 ["inputs", "configurations"], "all projectiles, materials, thicknesses below and above the range, energies and scattering models",
 "Tests check a few values against reference programs at some per cent.",
 [S+"catima.cpp", S+"calculations.cpp"], [("moment integration", "src/catima.cpp angular_variance, angular_straggling, angular_straggling_from_E")])

prop("P32", "Every query returns and its result depends on its arguments only",
 "Any query with any projectile, energy, material, thickness and configuration returns, whether or not its elements are tabulated and its energy lies inside of the tables, without reading outside of the tables and without undefined arithmetic. The result does not depend on what memory held before, and for tabulated elements and energies it is a finite number.",
 ["inputs", "configurations"], "all classes of arguments in combination: known and unknown elements, zero, negative, tiny and huge energies, empty and massless materials, all thicknesses",
 "Tests use ordinary inputs; a read outside of a table often returns a plausible number.",
 [S+"catima.cpp", S+"calculations.cpp", S+"srim.cpp", S+"storage.cpp", I+"storage.h", S+"nucdata.cpp", S+"abundance_database.cpp"],
 [("table access", "include/catima/storage.h index, src/srim.cpp, src/calculations.cpp"), ("clamping of element numbers", "src/srim.cpp, src/calculations.cpp precalculated_lindhard")])

prop("P33", "Complex gamma and hypergeometric functions satisfy their equations",
 "The logarithm of the gamma function and the confluent hypergeometric function agree with their defining series for complex arguments of either sign and on both axes. They satisfy the recurrence, conjugation and Kummer's transformation to their stated precision.",
 ["inputs"], "all complex arguments away from poles, in the range used by the partial wave sums",
 "No test calls these functions; errors average out in sums over many partial waves.",
 [S+"calculations.cpp", I+"calculations.h"], [("series", "src/calculations.cpp lngamma, hyperg")])

prop("P34", "Regenerated correction tables reproduce the direct calculation",
 "The table generator writes a complete table file; a library built with it looks up, at every tabulated energy, for every element and for both tabulated masses, the value of the direct calculation to the written precision.",
 ["inputs", "configurations"], "all elements, tabulated energies and masses, for an arbitrary correction function",
 "The generator is not built by the tests and takes an hour with the real calculation.",
 ["utils/generator.cpp", S+"calculations.cpp", I+"storage.h"], [("generation", "utils/generator.cpp main"), ("look-up", "src/calculations.cpp precalculated_lindhard")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
