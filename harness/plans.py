"""One function per property: which models are checked, which drivers run the real
code on which behaviours, and which trace specification judges what they recorded."""

# what the manifest says about each check
NOTES = {
    'C01': 'Groups.tla exhaustively for all group structures over 7 (thorough 8) energy ticks; every structure and range replayed into map_groups_to_continuous, plus random and real group structures. Bounded; energies enter as ranks.',
    'C02': 'Editor.tla/Reactions.tla: all sets of adjusted reactions over small files; simulated histories replayed into AceEditor on synthetic ACE files, every reaction compared with the specified sums. Bounded files and histories.',
    'C03': 'Editor.tla: all short operation sequences in the model; simulated histories (reads, edits, refused edits, several editors) replayed into AceEditor and judged step by step. Bounded.',
    'C04': 'AceText.tla: token streams with one- and two-letter alphabets exhaustively, replayed as real ACE files through WriteAce; written bytes judged. Bounded.',
    'C05': 'AceFile.tla reads the NXS/JXS/XSS arrays by the ACE format; model layouts exhaustively, plus random tables with all blocks, read as text and binary, alone and in libraries. Bounded; values dyadic.',
    'C06': 'Tabulated.tla: all small tables, regions and laws; each replayed into Tabulated1D at points, quarter points and outside; sums, combinations, polynomials. Exact for powers of two.',
    'C07': 'Boxer.tla: all run/page encodings of all small matrices; each written as a BOXER file, converted by the compiled program and read back. Plus random files, damaged and oversized ones. Bounded.',
    'C08': 'CovStore.tla: group data and correlations specified from the matrix; random matrices (zero rows, ill-formed) processed into real stores and loaded. Bounded.',
    'C10': 'Sampling.tla: drawing, ranking, ordering, dropping for all variable kinds, 3 samples (thorough 4), exhaustively; all 1536 kinds x distributions for 3 variables (quick 700) plus random ones sampled by the real code, each value projected to its stratum. Bounded.',
    'C11': 'Sampling.tla: ranks and ordering exact on all small columns; correlations of 250 samples for all sign patterns of 3 variables (thorough), singular matrices, fixed variables, lognormal transformation with exactly representable targets. Statistical tolerance 0.10/0.17, at least twice the largest deviation seen.',
    'C12': 'Sampling.tla: bounds on dropped samples proved in the model; random stores sampled with every sampling type, tables judged. Bounded, random.',
    'C14': 'Deck.tla executes decks symbolically, tape by tape; a reference deck writer is checked for all option combinations, and the same 800 requests (thorough 2304) go to make_njoy_run, whose deck is read as NJOY reads it and executed by the specification. Decks of make_ace and make_ace_thermal are taken from a stand-in for NJOY. Bounded: 2 (3) temperatures.',
    'C16': 'Endf.tla: all spellings of small numbers, all record shapes up to 13 (20) values, all small tapes in the model and through both ENDF modules, plus random larger ones. Bounded.',
    'C17': 'Algebra.tla: definiteness by minors, conversions, factorisation identities in integers over all small matrices of a value grid; each through the real code, plus random larger ones. Bounded; residuals to 1e-9.',
    'C13': 'Partition.tla: all interleavings and deaths of up to 3 (4) processes and 4 (5) samples; all schedules of small jobs and simulated larger ones are imposed on the real command, one process per rank, and every file compared with a run of one process. MPI is a stand-in. Bounded.',
    'C18': 'Pipeline.tla: factors, sum rules and unchanged data for all requests over a small file and store; each request and random larger ones run through the real command, every number of every written file and table judged. Bounded; factors to 1e-5.',
    'C19': 'Fission.tla: normalised densities and accumulated distributions in integers, all small spectra and edits; replayed into the editor, and spectrum and nubar sampled through the real command and read back from the written files. Bounded.',
    'C15': 'Chain.tla: every fault of every program step, kills and leftovers of earlier runs in the output folder; runs and pairs of runs replayed through run_cover_chain and the command with stand-ins for NJOY (and the converter) that fail as planned; every file judged by whose data it holds. Bounded: 2 temperatures, 5 reactions.',
    'C20': 'Hdf.tla: all short histories of loading, adding temperatures, exporting and importing over six kinds of nuclides; simulated histories of 8 operations with random ACE tables through the real code, the whole nuclide compared after each step, and the libraries listing the files. Bounded.',
    'C29': 'Levels.tla: single- and multi-level Breit-Wigner and Reich-Moore cross sections from the equations of the ENDF-6 manual in fixed-point arithmetic; that the forms agree for one level, and the recursions of penetration, shift and phase, are checked in the model; ranges with up to three l written as tapes, loaded, and evaluated with the extension module compiled from the source. Bounded.',
    'C28': 'Grid.tla: bisection of a function given on a grid and greedy thinning in exact integers; that the result keeps the points, the ends and the tolerance is checked in the model for all small functions; the same and random larger ones linearised and thinned by the code, and elastic cross sections at 0 K added from evaluations. Bounded.',
    'C27': 'Library.tla: registering, spelling of paths, writing, moving, reading and searching; the round trip checked in the model from every directory, histories of 14 steps replayed in a scratch tree. Bounded.',
    'C26': 'Photon.tla reads files 23, 27, 28 section by section and tables by their pointers, and keeps the files of several elements; every combination of sections, table shape and history of exports in the model, replayed with random numbers. Bounded.',
    'C25': 'Decay.tla reads section 8/457 record by record and 8/454, 8/459 by energy; every combination of modes and spectra in the model, written as tapes with random numbers and loaded in all ways; conservation of charge and mass checked in the model. Bounded.',
    'C24': 'Thermal.tla: tables laid out word by word in the model (all shapes) and read as NXS and JXS say; histories of loading, adding, exporting, importing to depth 4, replayed; random larger tables. Bounded.',
    'C23': 'Resonance.tla reads files 2 and 32 range by range (all formalisms, radius options, covariance formats), choices of resonances; all layouts in the model, written as tapes with random numbers, loaded, chosen from and sampled. Bounded; sampling is statistical.',
    'C22': 'FissionEnergy.tla: components by polynomial, Sher-Beck formula or table, read step by step; all small choices in the model, written as evaluations and loaded with random numbers; values of components and sums judged to eV. Bounded.',
    'C21': 'EndfData.tla reads the records of MF 1, 3-6, 8-10, 12, 13; all presence combinations in the model, written as ENDF tapes and loaded, plus random evaluations with many reactions; every product, yield and distribution judged. Bounded; exact dyadic values.',
    'C09': 'CovStore.tla: store histories exhaustively to depth 4 (thorough 6); simulated histories of 12 operations replayed into HDF5 stores, the whole store compared after each step.',
}


SAMPLE_ASSUME = ['the distributions\' cumulative functions are evaluated with scipy to find the interval a value lies in',
                 'lognormal means are not negative']


CLI_ASSUME = ['the arrays of the base file differ from each other and have no negative cross sections (see the known finding for equal arrays)',
              'requested reactions are in the store and listed on the file; factors are read from the tables and compared to 1e-5',
              'one process; mpi4py is replaced by a stand-in']


def C01(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Groups', 'MC_Groups_deep.cfg' if r.thorough else None, emit=cases)
    tr = r.path('t.ndjson')
    r.driver('drv_groups.py', tr, cases)
    r.validate('Trace_Groups', tr, chunk=700)
    r.assume += ['energies are compared as IEEE doubles; rank compression keeps their order',
                 'minimum below the lowest upper bound, as the function documents']


def _editor(r, focus):
    r.model('MC_Editor', 'MC_Editor_deep.cfg' if r.thorough else None, workers=8)
    cases = r.path('cases.ndjson')
    r.model('MC_Editor', 'Sim_Editor.cfg', emit=cases, workers=1,
            args=('-simulate', 'num=%d' % (400 if r.thorough else 60), '-depth', '7', '-seed', str(r.seed)))
    tr = r.path('t.ndjson')
    r.driver('drv_editor.py', tr, cases)
    r.validate('Trace_Editor', tr, chunk=500, reset=lambda e: e['ev'] == 'load', env=dict(FOCUS=focus))
    if focus == 'rules':
        r.driver('drv_editor.py', tr, part='leaves')
        r.validate('Trace_Editor', tr, chunk=300, env=dict(FOCUS=focus))
    r.assume += ['a sum on the file covers the energies of its constituents, as the ACE format requires',
                 'cross sections given as arrays']


def C02(r):
    _editor(r, 'rules')


def C03(r):
    _editor(r, 'edits')


def C04(r):
    cases = r.path('cases.ndjson')
    r.model('MC_AceText', emit=cases, workers=4)
    r.model('MC_AceText', 'Sim_AceText.cfg', emit=cases, append=True, workers=1,
            args=('-simulate', 'num=%d' % (40 if r.thorough else 3), '-depth', '5', '-seed', str(r.seed)))
    tr = r.path('t.ndjson')
    r.driver('drv_acetext.py', tr, cases)
    r.validate('Trace_AceText', tr, chunk=250, reset=lambda e: e['ev'] == 'open')
    r.assume += ['the base file is laid out as NJOY and MCNP write it: 20 columns a value, four a line']


def C05(r):
    cases = r.path('cases.ndjson')
    r.model('MC_AceFile', 'MC_AceFile_deep.cfg' if r.thorough else None, emit=cases)
    for part, ch in (('model', 60), ('', 25), ('lib', 60)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_acefile.py', tr, cases, part=part)
        r.validate('Trace_AceFile', tr, chunk=ch)
    r.assume += ['values are dyadic so that text, floats and model integers agree exactly',
                 'mass numbers up to three times the atomic number, as get_metadata assumes']


def C06(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Tabulated', 'MC_Tabulated_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    r.model('MC_Tabulated', 'MC_Tabulated_steps.cfg', emit=cases, workers=8, append=True)
    tr = r.path('t.ndjson')
    r.driver('drv_tabulated.py', tr, cases)
    r.validate('Trace_Tabulated', tr, chunk=500)
    r.assume += ['increasing abscissae, with steps (two points with one abscissa) inside the range only; abscissae and ordinates that are powers of two for the logarithmic laws, so that the specification\'s integers are exact',
                 'points outside the range are further than 1e-6 away']


def C07(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Boxer', 'MC_Boxer.cfg', emit=cases)
    if r.thorough:
        r.model('MC_Boxer', 'MC_Boxer_deep.cfg', emit=cases, append=True, workers=8)
    for part in ('model', ''):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_boxer.py', tr, cases, part=part)
        r.validate('Trace_Boxer', tr, chunk=90)
    r.assume += ['values with at most four digits, so that the converter\'s output format is exact',
                 'block titles start with a blank, as in the decks this program writes; the group bounds, cross sections, deviations and matrix of a reaction follow each other in this order, as NJOY writes them']


def _store(r, part):
    r.model('MC_CovStore', 'MC_CovStore_deep.cfg' if r.thorough else None, workers=8)
    cases = r.path('cases.ndjson')
    r.model('MC_CovStore', 'Sim_CovStore.cfg', emit=cases, workers=1,
            args=('-simulate', 'num=%d' % (900 if r.thorough else 90), '-depth', '13', '-seed', str(r.seed)))
    tr = r.path('t.ndjson')
    r.driver('drv_store.py', tr, cases, part=part)
    r.validate('Trace_CovStore', tr, chunk=90, reset=lambda e: e['ev'] == 'start')


def C08(r):
    _store(r, 'process')
    r.assume += ['matrix files as the converter writes them; values with at most four digits and variances that are squares, so that the specification\'s integers are exact']


def C09(r):
    _store(r, 'history')
    r.assume += ['one process uses the store at a time']


def _sampling(r, parts):
    r.model('MC_Sampling', 'MC_Sampling_deep.cfg' if r.thorough else None, workers=8)
    cases = r.path('cases.ndjson')
    r.model('MC_Sampling', 'MC_SamplingCases.cfg', emit=cases)
    for part, chunk in parts:
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_sampling.py', tr, cases, part=part)
        r.validate('Trace_Sampling', tr, chunk=chunk)
    r.assume += SAMPLE_ASSUME


def C10(r):
    _sampling(r, [('strata', 250)])


def C11(r):
    _sampling(r, [('rank', 250), ('corr', 60)])
    r.assume += ['correlations of 250 samples are compared within 0.10 (normal, and lognormal in the logarithms) or 0.17 (uniform)']


def C12(r):
    _sampling(r, [('store', 70)])


def C14(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Deck', 'MC_Deck_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('deck', 150), ('run', 40), ('from', 15)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_deck.py', tr, cases, part=part)
        r.validate('Trace_Deck', tr, chunk=ch)
    tr = r.path('tchain.ndjson')
    r.driver('drv_chain.py', tr, part='decks')
    r.validate('Trace_Deck', tr, chunk=40)
    r.assume += ['temperatures that differ when written with one decimal; built-in weight functions without further input (not 0 or 4)',
                 'NJOY\'s input formats as its manual gives them; NJOY itself is represented by the symbolic execution in Deck.tla']


def C16(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Endf', 'MC_Endf_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('num', 900), ('tape', 60)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_endf.py', tr, cases, part=part)
        r.validate('Trace_Endf', tr, chunk=ch)
    r.assume += ['reals of at most seven digits, so that their shortest decimal form is exact',
                 'compact correlation records with 2, 4 or 5 digits']


def C17(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Algebra', 'MC_Algebra_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    tr = r.path('t.ndjson')
    r.driver('drv_algebra.py', tr, cases)
    r.validate('Trace_Algebra', tr, chunk=260)
    r.assume += ['eigenvalues of at most 5x5 matrices are computed with numpy; definiteness of the given matrices is decided exactly by minors',
                 'correlation matrices with a unit or zero diagonal, at least one group with data']


def _cli(r, parts):
    cases = r.path('cases.ndjson')
    r.model('MC_Pipeline', 'MC_Pipeline_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part in parts:
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_cli.py', tr, cases, part=part)
        r.validate('Trace_Pipeline', tr, chunk=60)


def C18(r):
    _cli(r, ['cases', 'random'])
    r.assume += CLI_ASSUME


def C19(r):
    cases = r.path('fcases.ndjson')
    r.model('MC_Fission', 'MC_Fission_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    tr = r.path('tf.ndjson')
    r.driver('drv_fission.py', tr, cases)
    r.validate('Trace_Fission', tr, chunk=120, reset=lambda e: e['ev'] == 'load')
    _cli(r, ['fission'])
    r.assume += CLI_ASSUME + ['the prompt spectrum is LAW 4; prompt and total nubar are both tabulated']


def C13(r):
    r.model('MC_Partition', 'MC_Partition_deep.cfg' if r.thorough else None, workers=8)
    cases = r.path('cases.ndjson')
    r.model('MC_Partition', 'Sched_Partition.cfg', emit=cases)
    for x in 'abcde':
        r.model('MC_Partition', 'Sim_Partition_%s.cfg' % x, emit=cases, append=True, workers=1,
                args=('-simulate', 'num=%d' % (120 if r.thorough else 30), '-depth', '40', '-seed', str(r.seed)))
    tr = r.path('t.ndjson')
    r.driver('drv_mpi.py', tr, cases)
    r.validate('Trace_Partition', tr, chunk=700, reset=lambda e: e['ev'] == 'start')
    r.assume += ['mpi4py is replaced by a stand-in that passes messages between forked processes and decides the order in which they run',
                 'a process dies after the broadcast of the samples, before any of its files']


def C15(r):
    r.model('MC_Chain', 'MC_Chain_deep.cfg' if r.thorough else None, workers=8)
    r.model('MC_Chain', 'Wide_Chain.cfg', workers=4)
    cases = r.path('cases.ndjson')
    r.model('MC_Chain', 'Cases_Chain.cfg', emit=cases)
    r.model('MC_Chain', 'Cases_Chain2.cfg', emit=cases, append=True)
    tr = r.path('t.ndjson')
    r.driver('drv_chain.py', tr, cases)
    r.validate('Trace_Chain', tr, chunk=400, reset=lambda e: e['ev'] == 'start')
    r.driver('drv_chain.py', tr, part='cli')
    r.validate('Trace_CovStore', tr, chunk=20, reset=lambda e: e['ev'] == 'start')
    r.assume += ['NJOY is a stand-in that writes its tapes or fails as planned; the converter is a stand-in where it must fail and the program compiled from the repository in the command',
                 'programs read their input up to its end mark']


def C20(r):
    r.model('MC_Hdf', 'MC_Hdf_deep.cfg' if r.thorough else None, workers=8)
    r.model('MC_Hdf', 'All_Hdf.cfg', workers=8)
    cases = r.path('cases.ndjson')
    r.model('MC_Hdf', 'Sim_Hdf.cfg', emit=cases, workers=1,
            args=('-simulate', 'num=%d' % (2000 if r.thorough else 150), '-depth', '9', '-seed', str(r.seed)))
    tr = r.path('t.ndjson')
    r.driver('drv_hdf.py', tr, cases)
    r.validate('Trace_Hdf', tr, chunk=100, reset=lambda e: e['ev'] == 'start')
    r.assume += ['values are dyadic, so that model integers and stored numbers agree exactly',
                 'total nubar is the same for all fission reactions of a table, as the ACE format has it']


def C21(r):
    cases = r.path('cases.ndjson')
    r.model('MC_EndfData', 'MC_EndfData_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('cases', 130), ('mixed', 10)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_endfdata.py', tr, cases, part=part)
        r.validate('Trace_EndfData', tr, chunk=ch)
    r.assume += ['tables whose values are combined have histogram or linear laws and steps that make the values exact',
                 'evaluations with fission give nubar; angular distributions of fission come with energy distributions']


def C22(r):
    cases = r.path('cases.ndjson')
    r.model('MC_FissionEnergy', 'MC_FissionEnergy_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    tr = r.path('t.ndjson')
    r.driver('drv_fissionenergy.py', tr, cases)
    r.validate('Trace_FissionEnergy', tr, chunk=90)
    r.assume += ['tables with linear laws over the whole energy range', 'derived functions are judged on the points of the tabulated components']


def C23(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Resonance', 'MC_Resonance_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('cases', 60), ('subsets', 30), ('sampling', 6)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_resonance.py', tr, cases, part=part)
        r.validate('Trace_Resonance', tr, chunk=ch)
    r.assume += ['resonances of a range have different energies and file 32 lists all of them', 'file 32 gives uncertainties of the same parameters for every resonance',
                 'sampled means and covariances are estimated from 1500 samples']


def C29(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Levels', 'MC_Levels_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('sigma', 60), ('whole', 120), ('zero', 6)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_levels.py', tr, cases, part=part)
        r.validate('Trace_Levels', tr, chunk=ch)
    r.assume += ['numbers the specification holds in 20 binary places: penetrations from 0.004 on, energies up to 12 units',
                 'cosine and sine of twice the product of wave number and radius are given to the specification']


def C28(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Grid', 'MC_Grid_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('grid', 300), ('zero', 15)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_grid.py', tr, cases, part=part)
        r.validate('Trace_Grid', tr, chunk=ch)
    r.assume += ['functions that are straight between multiples of a power of two, tolerances no error equals',
                 'evaluations without resolved resonances (their reconstruction is compiled separately and not built here)']


def C27(r):
    r.model('MC_Library', 'MC_Library_deep.cfg' if r.thorough else None, workers=8)
    cases = r.path('cases.ndjson')
    for cfg, n, depth in (('Sim_Library.cfg', 60, 15), ('Sim_Library_plot.cfg', 250, 11)):
        r.model('MC_Library', cfg, emit=cases, workers=1, append=True,
                args=('-simulate', 'num=%d' % (n * 5 if r.thorough else n), '-depth', str(depth), '-seed', str(r.seed)))
    tr = r.path('t.ndjson')
    r.driver('drv_library.py', tr, cases)
    r.validate('Trace_Library', tr, chunk=60)
    r.assume += ['no symbolic links; entries spelled relative to a working directory are used from that directory',
                 'a list outside its files\' directory is not judged after the tree moved']


def C26(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Photon', 'MC_Photon_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('endf', 60), ('ace', 60), ('history', 40), ('elements', 20)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_photon.py', tr, cases, part=part)
        r.validate('Trace_Photon', tr, chunk=ch)
    r.assume += ['coherent, incoherent and photoelectric cross sections are there, and relaxation data for every shell that has a cross section',
                 'the data that come with the package are read from its files by the driver, the cubic spline of bremsstrahlung with scipy']


def C25(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Decay', 'MC_Decay_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('decay', 120), ('yields', 40), ('modes', 300)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_decay.py', tr, cases, part=part)
        r.validate('Trace_Decay', tr, chunk=ch)
    r.assume += ['one spectrum for each kind of radiation; daughters of fission or unknown modes are not judged', 'reals are multiples of 0.001']


def C24(r):
    cases = r.path('cases.ndjson')
    r.model('MC_Thermal', 'MC_Thermal_deep.cfg' if r.thorough else None, emit=cases, workers=8)
    for part, ch in (('tables', 150), ('histories', 40), ('names', 300)):
        tr = r.path('t%s.ndjson' % part)
        r.driver('drv_thermal.py', tr, cases, part=part)
        r.validate('Trace_Thermal', tr, chunk=ch)
    r.assume += ['tables of one material have the same form at all temperatures', 'values are multiples of 1/1024; cross sections at a Bragg edge itself are not judged']
