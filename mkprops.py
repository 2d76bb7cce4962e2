#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mechanism, observe_at):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=s.strip()) for s in state.split(",")],
                               mechanism=[dict(name=s.strip(), where=files[0]) for s in mechanism.split(",")],
                               observe_at=[s.strip() for s in observe_at.split(',')], hook_needed=None)))

p("C01", "Each pointwise energy gets the value of the covariance group containing it",
  "When group-wise values are mapped onto a pointwise energy grid, every energy in the covered range [minimum, maximum] gets the value of the one group whose interval (low, high] contains it; the minimum itself belongs to the lowest-energy group, and a maximum above the top group bound extends the highest-energy group. Energies outside the range get the caller's fill value, and the result stays parallel to the given energies in whatever order they come. A minimum equal to the lowest group's upper bound, or a maximum below the top bound, is refused.",
  ["inputs", "configurations"], "all group structures, group values, energy grids (any order, duplicates, exactly on bounds), ranges and fill values",
  "the repository's one test maps one grid; off-by-one group numbers appear only for energies exactly on a bound, outside the range or at the range's ends",
  ["ASAPy/XsecSampler.py"], "group bounds, group values, energy grid", "map_groups_to_continuous (searchsorted plus group-number inversion)", "return value")

p("C02", "Redundant reactions follow their adjusted constituents exactly",
  "After any set of constituent reactions is adjusted and the sum rules are applied, every redundant reaction on the file (total, nonelastic, inelastic, (n,2n), fission, absorption, disappearance, and the charged-particle sums) differs from its original by exactly the sum of the changes of its constituents on the file, at every energy of its grid; a constituent that is itself a sum but not on the file is replaced by its own constituents. Every reaction that is not such a sum, and every sum without an adjusted constituent, keeps its values. Applying the rules again changes nothing.",
  ["inputs", "histories"], "all sets of reactions on a file, all thresholds/grids, all sequences of adjustments and applications of the sum rules",
  "the ACE tests cannot even run here and use one nuclide with one adjusted reaction; missing or doubly counted constituents show only for particular combinations of reactions",
  ["ASAPy/AceIO.py"], "reaction table, adjusted set", "AceEditor.apply_sum_rules", "get_sigma of every reaction after apply_sum_rules")

p("C03", "Edits of a loaded ACE table are isolated, and the original stays readable",
  "For every sequence of reads, edits, sum-rule applications and refused edits on one loaded file, reading a reaction returns the values last given to it (or else the file's), interpolated when energies are requested, and reading it unadjusted always returns the file's values. An edit changes no other reaction, the set of adjusted reactions holds exactly the edited ones and the sums recomputed from them, and an edit of the wrong length or of a reaction not on the file is refused and changes nothing. Changing a cross section array that was read, or another editor of the same file, never changes the table; a requested temperature is accepted exactly if it is the file's.",
  ["histories", "inputs"], "all operation sequences over all reactions of a file, including failed operations and several editors",
  "aliasing and stale-state faults need particular operation sequences (read, mutate, re-read; failed edit after a good one; unadjusted read after sum rules)",
  ["ASAPy/AceIO.py", "ASAPy/data/neutron.py", "ASAPy/data/function.py"], "table, original_table, adjusted_mts", "AceEditor.get_sigma/set_sigma/get_energy/__init__", "return values and exceptions of the editor's methods")

p("C04", "A rewritten ACE file differs from its base only in the replaced arrays",
  "Replacing an array in an ACE file and writing the file keeps every header line byte for byte and every other data token in place; the first run of consecutive tokens equal to the array (or as many runs as asked for) is exchanged for the new values in the 12-digit ACE format, whatever line breaks separate its tokens. Writing with nothing replaced reproduces the file, for either header style and any number of data values. An array that is not on the file, or a replacement of another length, is refused and changes nothing.",
  ["inputs", "histories"], "all ACE texts of either header style, arrays, replacements and sequences of replacements (including refused ones)",
  "the file tests need a missing ACE file; line-end, first-occurrence, partial-token and header-style cases are not sampled",
  ["ASAPy/AceIO.py"], "header lines, token stream", "WriteAce.replace_array, write_ace", "the bytes of the written file")

p("C05", "Loading an ACE file yields exactly the data its pointers lay out",
  "For every continuous-energy ACE table, loading gives the nuclide's identity (atomic and mass number, isomeric state), temperature and atomic weight ratio, the energy grid in eV, and for each listed reaction its Q-value and its cross section on the grid points from its threshold on, with negative values set to zero; total and (when given) disappearance appear as redundant reactions with the file's values, and a sum over levels that is missing on the file is added as a redundant reaction equal to the sum of its levels. Nubar, prompt fission spectrum and other emission data come from the blocks the pointers name. An ACE file converted to binary loads as the same table as its text form, for either header style and for any position in a library.",
  ["inputs", "configurations"], "all table layouts (numbers of energies, reactions, thresholds, block offsets), header styles, ASCII and binary files, library positions",
  "no ACE file is available to the repository's tests; offset and threshold errors depend on the particular layout",
  ["ASAPy/data/ace.py", "ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/data.py"], "XSS/NXS/JXS arrays and the reaction table", "ace.Library, get_table, ascii_to_binary, IncidentNeutron.from_ace, Reaction.from_ace, get_metadata", "the loaded table's public attributes")

p("C06", "Tabulated functions evaluate and integrate by the declared interpolation law",
  "A tabulated function over increasing points (with steps, two points at one abscissa, inside the range) returns its tabulated value at every tabulated point (the upper one at a step), zero outside its range, and between points the value of the interpolation law (histogram, lin-lin, lin-log, log-lin, log-log) declared for the region the interval lies in, for scalars and for arrays in any order. Its running integral is the exact integral of that law, and a sum, combination or polynomial equals its parts pointwise.",
  ["inputs"], "all tables, region breakpoints, interpolation laws and evaluation points (on points, breakpoints, ends, outside)",
  "no test evaluates tabulated functions; region-boundary and end-point errors need particular points",
  ["ASAPy/data/function.py"], "x, y, breakpoints, interpolation", "Tabulated1D.__call__/integral, Sum, Combination, Polynomial", "return values")

p("C07", "BOXER covariance data is expanded to the exact matrices it encodes",
  "For every BOXER file, asking the converter for a material and reaction yields the group bounds, cross sections, relative deviations and full covariance matrix encoded by its value/control runs (repeat, copy from the row above, zero in a page's first row, symmetric or full, paged), in high-to-low energy order, and the matrix reader returns those numbers with standard deviation = relative deviation x cross section. Data that is not in the file, or too large, is reported as an error and never returned as numbers.",
  ["inputs", "configurations"], "all run-length encodings of all small matrices, page splits, value and control formats, positions in the file",
  "one recorded matrix file is parsed in the tests; the converter is never run",
  ["boxer2mat/boxer2mat.f", "ASAPy/EndfToCov.py"], "value/control arrays, matrix C", "PROGRAM BOXR; read_boxer_out_matrix.get_block_data", "fort.21 and get_block_data")

p("C08", "The covariance store holds what the processed matrix says, ready for sampling",
  "Processing a converted matrix stores, under its nuclide and reaction, one row per group with upper and lower energy in descending order, the cross section, its absolute and relative deviation, and the correlation matrix: symmetric, unit diagonal, within [-1, 1], free of NaN, each element the covariance over the product of the two deviations, clipped to that range (0 where undefined). A group without a usable deviation gets zero cross section and the fixed 1e-7 deviations; a matrix file in error adds nothing. Loading a reaction gives these data back, scaled to unit diagonal and with group limits the right way round.",
  ["inputs"], "all group counts, matrices (including zero rows and ill-formed covariances), deviations and cross sections, and reactions",
  "no stable test processes a matrix into a store; degenerate groups are the norm in real data but absent from tests",
  ["ASAPy/EndfToCov.py", "ASAPy/CovManipulation.py", "ASAPy/XsecSampler.py"], "HDF5 store contents", "process_cov_to_h5, cov_to_correlation, XsecSampler.load_zaid_mt", "the store's frames and load_zaid_mt's result")

p("C09", "Adding to a covariance store replaces one entry and rejects malformed data",
  "Through every sequence of additions, replacements and refused additions, also across closing and reopening, a store holds for each nuclide/reaction pair exactly the last accepted deviation table and correlation matrix and nothing else. A correlation matrix that is not square or whose row and column groups differ, or a deviation table whose lower or upper energies are not strictly decreasing, is refused and leaves the store as it was.",
  ["histories", "inputs"], "all sequences of store operations over several nuclides, reactions and pairs, with well-formed and malformed frames",
  "the two tests build empty frames; overwrites, cross pairs, refusals and reopening are never combined",
  ["ASAPy/AsapyCovStorage.py"], "the store's keys and frames", "add_corr_to_store, add_stddev_to_store, check_correlation_df, check_stddev_df", "the store's keys and frames, exceptions")

p("C10", "Samples are stratified draws of each variable's requested distribution",
  "For every set of means (not negative for lognormal), deviations, correlations and sample counts, all given as arrays, each sampled variable has exactly one value in each of the n equiprobable intervals of its distribution (normal, lognormal or uniform with the given mean and standard deviation). Variables that cannot be sampled (zero deviation, zero mean for lognormal, zero correlation diagonal) hold their mean in every sample, lognormal samples are positive, and the result always has one row per sample and one column per variable in the given order.",
  ["inputs", "configurations"], "all means, deviations, correlation matrices, fixed-variable patterns, sample counts, distributions and random seeds",
  "tests compare moments loosely for a few fixed inputs; fixed-variable bookkeeping has 2^n patterns",
  ["ASAPy/CovManipulation.py"], "sampled matrix", "sample_with_corr, lhs_uniform_sample", "return value")

p("C11", "Samples carry the requested correlations",
  "Ordering a sample by ranks only permutes each column, and puts its values in exactly the order of the given ranks, with ranks a permutation ordered like the scores. Samples drawn with a requested correlation matrix show it within sampling error: independent where it is zero, moving together where it is positive and opposite where negative, also for matrices that need the modified Cholesky factor, with fixed variables in between, and (through Zerovnik's transformation) for lognormal variables.",
  ["inputs", "configurations"], "all rank matrices and score columns of small size; correlation matrices of every sign pattern, singular ones, and with fixed variables",
  "the tests use three positive-definite matrices; permutation and pivoting errors keep marginals intact",
  ["ASAPy/CovManipulation.py"], "rank and score matrices", "rank, order, col_independent_matrix, sample_with_corr", "return values")

p("C12", "Relative and full sample tables agree, and only negative samples are dropped",
  "For every stored reaction, sampling gives two tables over groups 1..G and samples numbered 0,1,2,... without gaps, in which full value = relative value x group mean (for a zero mean the relative value is the sampled value), every value finite. With negative removal no negative value remains and only whole samples that had one are missing; without it, and for positive distributions, all requested samples are there. Each sampling type uses the stored mean and deviation and, if correlated, the stored correlation; an unknown type is refused and the store is never changed.",
  ["inputs", "configurations"], "all stored reactions (zero means, large deviations, singular correlations), sampling types, sample counts and removal options",
  "no test samples from a store",
  ["ASAPy/XsecSampler.py"], "sample tables", "sample_xsec, XsecSampler.sample", "returned tables")

p("C13", "Each sample is written exactly once whatever the number of processes",
  "For every number of processes, samples and reactions and every order in which the processes run, the run leaves exactly one ACE file per sample and one table per reaction, and each file's content depends only on its sample: it is the same as in a run with one process. A process that dies costs at most its own unfinished samples, and processes beyond the number of samples write no sample.",
  ["schedules", "crash_points", "configurations"], "all numbers of processes and samples, all process orders, a process crashing before any of its samples",
  "the tests never run with more than one process nor write sampled files",
  ["ASAPy/XsecSampler.py"], "set of files written per process", "write_sampled_data, rank/size partition and broadcast in the command", "files in the output directory")

p("C14", "Generated NJOY decks connect every module to the right tapes",
  "For every combination of options, each module of a generated deck reads only tapes that are inputs or written by an earlier module and writes a tape nobody wrote before; covariances are computed from the group cross sections of the broadened data at the requested temperature, with the requested reactions, group bounds and weighting; heating, probability tables and ACE output continue from the newest pointwise tape. Each file to be saved is named for exactly the tape, temperature and product (covariance, plot, nu, chi, ACE, directory) it comes from, and a library of several temperatures holds each once, in order; metastable nuclides and thermal scattering data get their own identifiers. The inputs are the evaluation given, and impossible requests (no groups, no weights) are refused. A failing run of NJOY is reported and leaves no library. Nuclides and moderators loaded through NJOY have each temperature with the data of its own table, under the right name, and the elastic cross section at zero temperature.",
  ["configurations"], "all module option combinations, numbers of temperatures, reaction lists, weightings and group structures",
  "one recorded deck needs NJOY to be checked; tape-number slips appear only for particular option combinations",
  ["ASAPy/njoy.py", "ASAPy/data/njoy.py", "ASAPy/data/neutron.py", "ASAPy/data/thermal.py"], "deck text, tape-in and tape-out maps", "make_njoy_run, make_ace, make_ace_thermal and their templates, IncidentNeutron.from_njoy, ThermalScattering.from_njoy", "returned deck and maps, files and data loaded")

p("C15", "The covariance chain delivers each matrix file from its own tape or fails loudly",
  "For every evaluation, set of reactions and outcome of the external programs, the chain runs the processing code once on the given evaluation and then the converter once per covariance tape and reaction, with the right material and reaction, and saves each result under that tape's and reaction's name in the output folder, with the listing and tapes. If a program fails, or its listing, covariance tape or matrix is missing, the chain raises an error, and no file is saved under a name whose data did not come from that step of this run, whatever earlier runs left behind; intermediate files stay in the temporary folder unless asked otherwise. The command runs the chain for the reactions asked for, or all with covariances on the evaluation, with nu and chi for a fissionable nuclide, puts each matrix into the store under its own reaction, and refuses reactions without covariances.",
  ["fault_sequences", "configurations", "crash_points"], "all reaction lists, nu/chi options, folders, and failures of any step of the external programs",
  "NJOY is not available to the tests; failures of single steps are never simulated",
  ["ASAPy/EndfToCov.py", "ASAPy/njoy.py"], "files in work and output folders", "run_cover_chain, _run_cover_chain, run_program, njoy.run", "files left behind and exceptions")

p("C16", "ENDF tapes are parsed into the numbers and sections they contain",
  "Every ENDF number (with or without exponent letter, sign or blanks) converts to its value, and every text, control, list, table and compact correlation record returns exactly its fields, however many lines it takes. An evaluation exposes exactly the sections of its material with their lines, the header data (material, nuclide, state, fissionability, library, temperature) and the directory of sections, for one or several materials on a tape.",
  ["inputs"], "all number formats, record lengths, section lists, header fields and tape layouts",
  "the tests read one hydrogen file",
  ["ASAPy/endf.py", "ASAPy/data/endf.py"], "tape lines", "float_endf, get_*_record, Evaluation", "return values and attributes")

p("C17", "Covariance algebra is exact: conversions invert and factorisations reconstruct",
  "Converting correlations to covariances multiplies each element by both deviations, and converting back recovers the correlations for positive deviations; both results are symmetric. The modified Cholesky factorisation returns a permutation, a lower triangular factor and non-negative shifts with (PL)(PL)^T = A + diag(Pe), with zero shifts for a well-conditioned positive definite matrix. Repairing a correlation matrix (unit or zero diagonal) for sampling leaves a positive definite one alone and makes any other one positive definite, close to the original, touching only groups that have data.",
  ["inputs"], "all symmetric matrices of small size over a value grid, with zero rows and columns, singular and indefinite",
  "tests use three matrices",
  ["ASAPy/CovManipulation.py", "ASAPy/XsecSampler.py"], "matrices", "correlation_to_cov, cov_to_correlation, gmw_cholesky, XsecSampler(remove_negative_eig)", "return values, corr_df")

p("C18", "Every written sample is the base file scaled by the factors in its table",
  "In every sampled ACE file, each sampled reaction equals the base cross section times the factor its table lists for that sample and group (unchanged outside the groups; a zero cross section in a group of zero mean takes the sampled value), every redundant reaction with a changed constituent follows the sum rules, even if sampled itself, and all other data are those of the base file. The table lists, per group, limits, mean, relative deviation and every sample's factor. The command samples the requested reactions, or all of the nuclide in the store, that are on the file, and writes one file for each sample that all of their tables have.",
  ["inputs", "configurations"], "all base files, stores, reaction selections, distributions and sample counts",
  "no test writes a sampled file",
  ["ASAPy/XsecSampler.py", "ASAPy/AceIO.py"], "base ACE file, store, outputs", "write_sampled_data and the sampling command", "written ACE files and tables")

p("C19", "Edited fission spectra stay normalised and nubar edits reach every copy",
  "For every fission spectrum and every new density given for it, the stored density is the given one divided by one normalisation per incident energy, the stored distribution is the old one plus the accumulated density changes divided by the same normalisation, so it still starts where it did and ends at one; outgoing energies, other incident energies and the original spectrum are untouched, and densities of the wrong number or size are refused. Total nubar edits replace exactly the total yield, and sampling writes the edited density, distribution and nubar back to their places in the file.",
  ["inputs", "histories"], "all spectra (incident and outgoing grids), densities, nubar tables and edit sequences",
  "no ACE file is available to the tests",
  ["ASAPy/AceIO.py", "ASAPy/XsecSampler.py"], "chi pdf/cdf and nubar tables", "set_chi_distro, get_chi_distro, set_nu_distro, get_nu_distro, set_sigma(452/1018)", "get_chi_distro, get_nu_distro, written files")

p("C20", "Neutron data survive HDF5 export, import and added temperatures",
  "Through every history of loading ACE tables, adding tables at other temperatures, exporting to HDF5 files (new, existing, shared by several nuclides) and importing again, the nuclide read back has the identity, temperatures, energy grids, probability tables, fission energy release and reactions of the exported one: cross sections at every temperature, thresholds, Q values, frames, and all products with their yields, decay rates and distributions. Redundant reactions that a file does not store come back as the sum of their parts at each temperature, marked redundant and fission with total nubar. Windowed multipole data come back unchanged, or are refused if their arrays do not fit together. Adding a temperature changes only data at that temperature, and is refused for another nuclide; a temperature already there and a nuclide already in a file are not replaced. A library lists each registered file with its nuclides and finds a nuclide in the first file that has it, also after being written to XML and read back.",
  ["histories", "inputs"], "all tables, temperature sequences, export modes and file layouts",
  "no test writes or reads HDF5 data",
  ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/product.py", "ASAPy/data/correlated.py", "ASAPy/data/kalbach_mann.py", "ASAPy/data/energy_distribution.py", "ASAPy/data/angle_distribution.py", "ASAPy/data/library.py"], "nuclides in memory, HDF5 files, library list", "IncidentNeutron.export_to_hdf5, from_hdf5, add_temperature_from_ace, DataLibrary", "attributes of the nuclide read back")

p("C21", "An evaluation loads into exactly the reactions and products its sections give",
  "For every combination of sections of an ENDF evaluation, loading it gives the nuclide, temperature and exactly the reactions of file 3 with their Q values and cross sections, and for each reaction exactly the products its sections list: emitted neutrons with the shares, energy and angular laws of files 4 and 5, the products, yields and distributions of file 6, prompt, delayed (any number of groups) and total fission neutrons with rates and yields, states of files 8 to 10 with multiplicity or ratio to the cross section, and photons of files 12 and 13 with their own energies. Data the reader does not support take nothing from the data that follow them.",
  ["inputs", "configurations"], "all combinations of sections, laws, numbers of products, delayed groups and incident energies",
  "no test loads an evaluation",
  ["ASAPy/data/neutron.py", "ASAPy/data/reaction.py", "ASAPy/data/angle_distribution.py", "ASAPy/data/energy_distribution.py", "ASAPy/data/correlated.py", "ASAPy/data/kalbach_mann.py", "ASAPy/data/laboratory.py", "ASAPy/data/nbody.py"], "sections of the tape", "IncidentNeutron.from_endf, Reaction.from_endf, _get_products, _get_fission_products_endf, _get_activation_products, _get_photon_products_endf", "attributes of the loaded nuclide")

p("C22", "The energy released in fission is the sum of its components, whatever their form",
  "For every evaluation of the energy released in fission, each component has at every incident energy the value that its polynomial, the formula of Sher and Beck (if only the value at zero is given) or its table gives; coefficients left in MeV are recognised. The recoverable energy is the sum without neutrinos, the total with them, the prompt part fragments, prompt neutrons and photons, and the Q values these less the incident energy. All of it survives HDF5, and data of another nuclide are refused.",
  ["inputs", "configurations"], "all polynomial orders, sets and orders of tables (also of the sums), forms of nubar",
  "no test loads fission energies",
  ["ASAPy/data/fission_energy.py"], "component functions", "FissionEnergyRelease.from_endf, to_hdf5, from_hdf5, recoverable, total, q_prompt, q_recoverable, q_total", "values of the components and sums")

p("C23", "Resonance parameters and their covariances are read, chosen and sampled in step",
  "For every file 2 and file 32 of an evaluation, the ranges come with the formalism, energies, radii, angular momenta and parameters the records give, unresolved ones with the values of each energy; cross sections outside the resolved ranges are those of file 3. Each covariance belongs to the range, resonance and parameter its place in file 32 (general, compact or compatible format, one or several blocks, l-values and isotopes) says, with every off-diagonal kept. Choosing resonances by a bound keeps exactly their parameters and the matching rows and columns. Samples have the means and covariances of the file, what is not uncertain is kept, and total widths are sums.",
  ["inputs", "configurations", "histories"], "all formalisms, radius options, formats of covariances, numbers of isotopes, ranges, l-values, blocks and resonances; all choices and choices of choices",
  "no test reads file 2 or file 32",
  ["ASAPy/data/resonance.py", "ASAPy/data/resonance_covariance.py", "ASAPy/data/function.py"], "parameters of a range, covariance matrix", "Resonances.from_endf, ResonanceCovariances.from_endf, subset, sample, ResonancesWithBackground", "ranges, parameters, covariance, samples")

p("C24", "Thermal scattering data say what the table says, at every temperature",
  "For every ACE table of type t (equal, skewed or continuous outgoing energies; none, coherent or incoherent elastic scattering; any counts and order of blocks), the material has exactly the energies, cross sections, outgoing energies, densities and cosines its pointers locate, the name its table name stands for or the one given, and the nuclides it applies to. Coherent elastic scattering at an energy is the sum over the Bragg edges below it divided by the energy: zero below the first edge. Further tables add their temperature without changing another one, tables of another material are refused without effect, and all of it survives HDF5.",
  ["inputs", "configurations", "histories"], "all shapes of tables and histories of loading, adding, exporting and importing",
  "no test reads a thermal scattering table",
  ["ASAPy/data/thermal.py", "ASAPy/data/correlated.py"], "cross sections and distributions by temperature", "ThermalScattering.from_ace, add_temperature_from_ace, export_to_hdf5, from_hdf5, CoherentElastic, get_thermal_name", "attributes of the material, values at points")

p("C25", "Decay and fission-yield data are read completely, and decays conserve A and Z",
  "For every decay evaluation, loading it (by name, file or evaluation) gives the nuclide, half-life with its uncertainty, average energies, spin, every decay mode with energy and branching ratio and every spectrum with all its lines, intensities and continuous parts, exactly as its records say; a stable nuclide has an infinite half-life and no modes. The daughter of a sequence of modes has the charge and mass each step leaves it, in the state given, and a mode that occurs twice counts twice. Fission yields have, for each energy, each product under its name with its yield and uncertainty, independent and cumulative ones apart. A nuclide's name and its numbers determine each other.",
  ["inputs", "configurations"], "all sequences of modes, kinds of radiation, discrete, continuous and mixed spectra, isomeric states, energies and products",
  "no test reads decay data",
  ["ASAPy/data/decay.py", "ASAPy/data/endf.py", "ASAPy/data/data.py"], "position in the section; the nuclide's modes and spectra", "Decay, Decay.from_endf, FissionProductYields, DecayMode.daughter, get_decay_modes", "attributes of the decay, its modes and spectra, the yields")

p("C26", "Photon data say what the file says, and elements do not mix",
  "For every photoatomic evaluation, with or without atomic relaxation, and every photoatomic ACE table, loading gives the element, exactly the reactions there are with their energies, cross sections (positive from the threshold on, never NaN) and scattering factors, Compton profiles, and for each shell its binding energy, electrons and transitions with the probability of each; the export to HDF5 holds the same. Packaged profiles, stopping powers and bremsstrahlung are those of the element itself, whatever was loaded or exported before.",
  ["inputs", "configurations", "histories"], "all combinations of sections, table shapes and histories of loading and exporting several elements",
  "no test reads photon data",
  ["ASAPy/data/photon.py", "ASAPy/data/endf.py"], "position in the file; data cached by element", "IncidentPhoton.from_endf, from_ace, export_to_hdf5, AtomicRelaxation, PhotonReaction", "attributes of the element, content of the HDF5 file")

p("C27", "A data library lists its files correctly from any directory, and can be moved",
  "For every history of registering files, writing the list, changing directory, moving the tree, reading the list and looking up materials: the library is exactly the files registered, in order, each with its type and its materials in order; the list written denotes those same files, wherever it is written and however paths are spelled (absolute, relative, through ..), and is read back as such from any directory. If the list lies in the nearest directory that holds all its files, it stays valid when that directory is moved or renamed. A material is found in the first file that has exactly that name, else in none. Files that are not data files, and a list nobody named, are refused without effect.",
  ["histories", "inputs"], "all histories of operations, layouts of directories, spellings of paths, names with blanks and special characters",
  "no test uses a data library",
  ["ASAPy/data/library.py"], "entries of the library, content of the list", "DataLibrary.register_file, export_to_xml, from_xml, get_by_material", "entries after each step, files the list denotes")

p("C28", "Tables made by linearising and thinning keep to the tolerance and to the ends",
  "For every function, initial points and tolerance, linearising gives a table that has the initial points, increases, holds the function's values, and no line between neighbours misses the function in its middle by more than the tolerance; no points are added where that holds already. Thinning keeps the ends, adds nothing, leaves its input alone and drops a point only if the line that replaces it keeps every dropped value within the tolerance. An elastic cross section at 0 K added from an evaluation is that of the evaluation within the tolerance, with its peaks and the ends of its range, for evaluations with and without resolved resonances; data at 0 K there are already are refused or, if asked, replaced, and nothing else of the nuclide changes.",
  ["inputs", "configurations", "histories"], "all functions, grids, tolerances, kinds of resonance sections, sequences of additions",
  "no test linearises or thins a table",
  ["ASAPy/data/grid.py", "ASAPy/data/neutron.py"], "table before and after; cross sections of the nuclide by temperature", "linearize, thin, IncidentNeutron.add_elastic_0K_from_endf", "the tables returned, the nuclide's cross sections and energies")

p("C29", "Resonance parameters give the cross sections of their formalism",
  "For every resolved range in single-level or multi-level Breit-Wigner or Reich-Moore form (any target spin, l up to 4, bound levels, fission widths of either sign, competitive widths, constant, l-dependent or energy-dependent radii, either choice of channel radius) and every energy, scalar, list or array, of whole numbers or not, the elastic, capture and fission cross sections are those of appendix D of the ENDF-6 manual, also after copies of the range were changed. Cross sections of the evaluation are those of file 3 plus, within a resolved range, the resonant ones, once. The elastic cross section at 0 K added from such an evaluation covers the range from end to end and follows every resonance.",
  ["inputs", "configurations", "histories"], "all parameters, spins, radii, energies and forms; copies and changes of ranges",
  "no test reconstructs a cross section",
  ["ASAPy/data/reconstruct.pyx", "ASAPy/data/resonance.py", "ASAPy/data/function.py", "ASAPy/data/neutron.py"], "penetrations and shifts prepared by l and J; collision matrix", "ResonanceRange.reconstruct, reconstruct_slbw, reconstruct_mlbw, reconstruct_rm, ResonancesWithBackground, add_elastic_0K_from_endf", "the cross sections returned")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
