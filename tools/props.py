#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

B='src/pwtools/batch.py'; S='src/pwtools/sql.py'; C='src/pwtools/common.py'; A='src/pwtools/arrayio.py'
IO='src/pwtools/io.py'; PA='src/pwtools/parse.py'; CR='src/pwtools/crys.py'; BA='src/pwtools/base.py'
D='src/pwtools/dcd.py'

p('C01','Parameter study: database, calc dirs, inputs and submit scripts always agree',
 "After every successful write_input call in any history of append and overwrite calls, the database holds exactly one row per calculation, numbered contiguously and uniquely across the study's whole history, and for every machine of that call each new row's calculation directory holds every template with all known placeholders replaced by exactly that row's values. "
 "Earlier rows and earlier calculation directories are unchanged by an append, the revision grows by one per append, an overwrite restarts numbering and revision at zero, and the caller's own templates, parameter sets and machines are never altered. "
 "Each machine's submit script lists exactly the calculations of the last call, and after every append the exclude list, if asked for, names exactly the indices of all earlier revisions.",
 ['histories','inputs','configurations'],
 "Every sequence of write_input(mode, backup, sleep, excl) calls, over every mix of machines, templates (text, file, copy-only, bound keys), complete and incomplete parameter sets, table, database and directory names (including blanks), with fresh or re-used study objects.",
 "Tests run a handful of fixed two- or three-call sequences with default table names; the guarantee quantifies over call histories and configurations.",
 [B,S],[('ParameterStudy.write_input numbering and revision logic',B),('Calculation / FileTemplate.writesql',B),('SQLiteDB.add_column for late parameters',S)],
 [('idx','calculation number, primary key of the study','calc.db'),('revision','append generation','calc.db')],
 ['calc.db rows','<calc_root>/<prefix>_<host>/<idx>/*','run.sh','excl_push'])

p('C02','Parameter study: an interrupted append loses nothing and can be repeated',
 "If write_input in append mode is killed, interrupted or hits an I/O error at any point, all rows, calculation directories and files of earlier calls remain unchanged and the database opens with either none or all of the new rows. "
 "Every row present in the database has complete input files in its calculation directory on every machine, and no I/O error is swallowed: a call that returns normally has written everything. "
 "Repeating the call once the fault is gone succeeds - also when the very first call of a study failed - and ends in the state an undisturbed call would have produced.",
 ['crash_points','fault_sequences','histories'],
 "Every file-system operation of the call as a crash point (before, after, torn write), and every placement of ENOSPC, EIO, short write, EINTR and Ctrl-C, after every history of earlier calls, with repeated crashes before recovery.",
 "No test injects any fault; crash points and fault placements number in the hundreds per call.",
 [B,S,C],[('rows are inserted in one transaction after all files are written',B),('finish() commits',S)],
 [('calc.db','study database','<calc_root>')],['file tree and database after restart'])

p('C03','Overwrite mode with backup never destroys the only copy of earlier results',
 "With backup enabled, at every instant during write_input in overwrite or append mode - including after a crash or I/O error - every earlier calculation directory and the earlier database still exist completely, either in place or as a numbered backup. "
 "If a backup cannot be made completely, the call fails and the original stays in place. "
 "In either mode, with or without backup, nothing is deleted or modified except the study's own database, the calculation directories of the machines in use, the run scripts and the exclude list, whatever characters the directory names contain.",
 ['crash_points','fault_sequences','configurations'],
 "Every crash point and I/O-fault placement in overwrite and append calls, for every history, directory naming (blanks, shell metacharacters) and pre-existing neighbours of the study.",
 "Tests overwrite once, fault-free, in a directory with a benign name.",
 [B,C],[('backup before removal',B),('common.backup',C)],[],['file tree incl. numbered backups'])

p('C04','backup() makes a complete new copy or reports failure, touching nothing else',
 "backup(src) of an existing src that returns normally leaves a complete copy of src (file or directory tree, content and permission bits), which shares no file with src, under the first free number and leaves src and every existing backup byte-for-byte unchanged. "
 "If it fails or is interrupted at any point, src and all existing backups are still unchanged and at most one new, incomplete target exists. "
 "A later fault-free backup never reuses or overwrites any existing name and is complete.",
 ['crash_points','fault_sequences','histories'],
 "Every sequence of backup and modify operations over files, nested trees, empty dirs and symlinks, with crash, ENOSPC, EIO, short write, EINTR, EMFILE at every file-system operation.",
 "Two example-based tests exist without faults.",
 [C],[('common.backup first-free-number search and copy',C)],[],['file tree'])

p('C05','No writer reports success for data that did not reach the file',
 "If any file-writing function or method (text, array text files, pickled objects, HDF5, CIF, XYZ, AXSF, LAMMPS data, template files, in-place template replacement, scripts, databases) returns normally, the file holds the complete content, identical to what a fault-free call writes, and reading it back with the library's reader returns what was written within the format's documented precision. "
 "Any I/O error on the way is reported as an exception to the caller. "
 "In-place replacement of a template with a backup suffix never leaves the user without a complete old or new version.",
 ['fault_sequences','inputs','crash_points'],
 "Every writer and reader pair, every data shape and size, and every placement of ENOSPC (also persistent full disk), EIO, short write, EINTR and close error in the write sequence.",
 "Tests round-trip on a healthy disk only; errors deferred to flush or close are never exercised.",
 [C,A,IO,BA,S,B],[('explicit close / with-blocks in writers',IO),('FlexibleGetters.dump',BA),('writetxt',A)],[],['bytes on disk vs. return value'])

p('C06','A truncated or damaged stored file is never read as a smaller valid result',
 "Reading an array text file, a pickled object, an HDF5 file or a DCD trajectory that was cut off at any byte, or that is empty, either raises an error or (DCD only) returns a prefix of whole frames; it never returns values that were not written, a different shape, or a silently shortened array (text arrays: when read by their own header). "
 "Every array shape that can be written - including length-one axes - is read back with the same shape and values, by both DCD readers alike.",
 ['crash_points','inputs','fault_sequences'],
 "Every truncation length of every stored file, torn writes left by a crash at any write, short reads and read errors, for all shapes (1d to 3d, any axis) and all DCD header variants.",
 "Tests read intact files of a few shapes only.",
 [A,BA,IO,D,'src/_ext_src/dcd.f90'],[('shape and axis header checked in readtxt',A),('frame count from file in read_dcd_data',D)],[],['return value of readers'])

p('C07','SQLite layer: committed data survive, uncommitted vanish, queries match a model',
 "For every history of table creation, column addition, inserts, column fills/attachments, queries, commits and re-opens through the database class and makedb, all query helpers return what a plain in-memory table model returns. "
 "After a crash, I/O error or power loss at any point, the database opens without corruption and shows a state consistent with the commits that returned: nothing committed is lost by a process crash, nothing uncommitted appears partially within one transaction. "
 "An operation that fails leaves earlier committed data unchanged.",
 ['histories','crash_points','fault_sequences'],
 "Every operation history over several tables and value types (including NULL, text with quotes, blobs), with process crash at every file-system call, loss of any unsynced subset of writes on power loss, ENOSPC, EIO and short I/O.",
 "Tests run short fault-free sequences; durability and atomicity concern crash points.",
 [S],[('commit/finish',S),('fill_column rowid logic',S),('makedb append checks',S)],[],['rows read back by an independent connection'])

p('C08','Parsing results do not depend on what was parsed before or is parsed meanwhile',
 "Parsing a given set of output files with given options returns the same quantities, units included, whatever other files, codes or option sets the process has parsed before, in whatever order, and whatever other threads are parsing at the same time. "
 "Calling the same parser's conversion to a structure or trajectory again, or again after a transient I/O failure, returns the same result, and results already handed out never change afterwards.",
 ['histories','schedules','fault_sequences'],
 "Every sequence and thread interleaving of parser constructions and conversions across all supported codes (PWscf SCF/MD, CPMD, CP2K, LAMMPS, CIF, PDB), units overrides, and transient read failures.",
 "Each test parses one file in a fresh object in fixed order in one thread; cross-talk through shared class state needs particular histories.",
 [PA,IO,CR],[('default_units per parser class, container per call',PA)],[('default_units','unit conversion factors of a parser class','class attribute')],['Structure/Trajectory attributes'])

p('C09','Parser quantities are independent of the order they are requested in',
 "For every parser object, each quantity obtained through its getters, attribute checks or bulk conversion has the same value whatever other quantities were requested before, how often, or whether an earlier request failed transiently. "
 "Dumping a parser object and loading it elsewhere yields the same quantities.",
 ['histories','fault_sequences','schedules'],
 "Every order, subset and repetition of getter calls on every parser class, interleaved with dump/load, bulk parsing and transiently failing reads.",
 "Tests call one bulk conversion, or a few getters in one order.",
 [PA,BA],[('FlexibleGetters.check_set_attr / raw-and-derived getters',BA)],[],['getter return values'])

p('C10','Output of a running or killed MD job yields a prefix of the true trajectory',
 "Parsing the output files of an MD run that is still being written, or was killed, at any byte of any file, gives for every per-step quantity either nothing, an error, or a prefix of the values of the complete run. "
 "It never gives a value that the run did not produce, nor values attributed to the wrong step or atom.",
 ['crash_points','schedules'],
 "Every cut point (block-buffered flushes of several files at different progress) and every interleaving of the writer's appends with the parser's reads, for PWscf, CP2K, CPMD, LAMMPS and DCD files of any size.",
 "Tests parse only complete, finished sample outputs.",
 [PA,IO,D,'src/pwtools/pwscf.py','src/_ext_src/dcd.f90'],[('frame counting by whole records; grep/awk blocks with fixed numbers of lines',PA)],[],['Trajectory attributes'])

p('C11','Crash, cut and restart of an MD run reproduces the uninterrupted run',
 "After an MD job dies at any point and its files are cut to the restart step with the cut scripts, appending the continued run's output gives files that contain every step of the uninterrupted run exactly once and in order, for any number of crash-and-restart cycles. "
 "Cutting keeps all data before the given step, removes that step and everything after it, keeps each file it changes as backup, reports errors, and leaves files alone when nothing is to be cut.",
 ['crash_points','histories'],
 "Every crash point of the writer, restart step, number of cycles, sampling interval and atom count; cutting itself killed or out of disk space midway and repeated.",
 "The scripts have one fixed-sample test or none.",
 ['bin/cut-cp2k.sh','bin/cut-cpmd.sh'],[('awk/sed line-count arithmetic and .bak copies','bin/cut-cp2k.sh')],[],['output files after cut and restart'])

p('C12','Every iteration over a trajectory sees all its steps once and in order',
 "Every iteration over a trajectory yields each time step exactly once, in order, with the data of that step, regardless of other iterations that are nested, abandoned half-way, interrupted by exceptions or run by other threads on the same object. "
 "Structures handed out, slices, copies and concatenations equal the corresponding steps, and changing a copy never changes the original.",
 ['schedules','histories'],
 "Every interleaving of starting, advancing, abandoning and finishing iterations, indexing, slicing, copying, concatenating and mutating copies, from any number of threads.",
 "Tests iterate once, start to finish.",
 [CR],[('Trajectory.__iter__/__getitem__',CR),('compress/concatenate/copy',CR)],[],['per-step data yielded'])

p('C13','Parallel Fortran kernels give the serial result under every thread schedule',
 "The OpenMP-parallel numerical kernels (velocity autocorrelation, all-pairs distances, trajectory distances) return the same result as a serial evaluation of their definition, for every number of threads and every interleaving of those threads, and never read or write outside their arrays.",
 ['schedules','inputs','configurations'],
 "Every interleaving of OpenMP threads at basic-block granularity, every team size and loop split, for every array shape, with and without masses, periodic boundaries.",
 "Tests compare methods on one machine with whatever interleaving the scheduler happens to produce; data races need particular interleavings.",
 ['src/_ext_src/flib.f90','src/pwtools/pydos.py','src/pwtools/num.py',CR],[('private/reduction clauses of the omp loops','src/_ext_src/flib.f90')],[],['kernel outputs'])

p('C14','A failing or killed external program never yields stale or partial results',
 "When a helper program (shell pipeline, equation-of-state fitter, viewer measurement) is missing, fails, is killed, or stops after partial output, the calling library function raises an error. "
 "It never returns results left over from an earlier run, nor the partial output as if complete.",
 ['fault_sequences','histories'],
 "Every program outcome (missing, exit status, signal, partial or empty stdout/output file, stderr noise) at every point of every history of repeated calls in the same working directory.",
 "Tests run the helpers only when they work.",
 [C,'src/pwtools/eos.py',PA],[('backtick / system error checks',C),('ElkEOSFit output reading','src/pwtools/eos.py')],[],['return value or exception'])

p('C15','Calculator results always belong to the current atoms and parameters',
 "For every history of position, cell, parameter and calculator changes and of program failures, an energy, force or stress returned by a calculator was computed by the external program for exactly the current atoms and this calculator's own parameters. "
 "Different calculator instances never influence each other, and a failed or killed program run raises instead of returning earlier results.",
 ['histories','fault_sequences'],
 "Every sequence of edits and requests over several calculator instances in shared or separate directories, with the program failing, dying, or writing truncated output at any run.",
 "The existing tests need the real programs and are not runnable; they use one instance and no failures.",
 ['src/pwtools/calculators.py'],[('calculate() writes input, runs command, reads output','src/pwtools/calculators.py')],[],['get_potential_energy/get_forces/get_stress'])

p('C16','Viewers and helpers leave no temporary files or descriptors behind',
 "Every viewer or helper call that creates temporary files removes all of them and leaves no file descriptor open and no child process running once it returns or raises, also when the external program fails or the disk is full. "
 "The external program sees a complete file, and files or temp names of concurrent or earlier calls are never touched; options to keep files keep exactly those.",
 ['fault_sequences','schedules','histories'],
 "Every history and thread interleaving of viewer and helper calls, with every program outcome and every placement of I/O errors.",
 "Tests only check that a call works once, if the program is there.",
 ['src/pwtools/visualize.py',CR,B],[('ViewFactory temp file handling','src/pwtools/visualize.py')],[],['temp directory, descriptor table, process table'])

p('C17','Tagged timers report exactly the time elapsed on their own tag',
 "For every interleaving of timer starts and stops under any tags, every reported time equals the clock difference between the start and stop of that tag, whatever the clock does in between, and one tag's use never affects another's. "
 "Output goes, complete and in order, to the place asked for.",
 ['histories','schedules'],
 "Every sequence of start/stop calls over tags and timers with any clock readings (including jumps and zero steps) and caller threads.",
 "The one test uses real sleeps in one order.",
 ['src/pwtools/timer.py'],[('TagTimer.t0 dictionary','src/pwtools/timer.py')],[],['printed times'])

p('C18','Random structure generation returns a valid structure or reports failure',
 "For every random stream, a generated random structure has the requested atoms, cell parameters within the requested limits and volume scale, and all minimum-image interatomic distances above the scaled covalent-radii limit; otherwise the documented failure exception is raised after at most the configured number of attempts. "
 "Generation never hangs, never depends on earlier generations, and is reproducible from the random seed.",
 ['inputs','histories','schedules'],
 "Every random-number stream (including adversarial constant and extreme streams), every generator configuration and every history of earlier (also failed) generations.",
 "Tests draw a few structures from an unseeded stream.",
 ['src/pwtools/random.py'],[('get_random_struct acceptance loop','src/pwtools/random.py')],[],['Structure returned or RandomStructureFail'])

p('C19','Numerical results depend only on arguments; calls leave arguments unchanged',
 "Calling any of the numerical, spectral, fitting, crystallographic and thermodynamic routines gives the same result for the same arguments regardless of what was called before, in the same or other threads, and regardless of the result objects of earlier calls being modified by the caller. "
 "The caller's arrays, dictionaries and containers passed in are left unchanged unless the function is documented to modify them.",
 ['histories','schedules'],
 "Every history and line-level thread interleaving of calls over a shared pool of argument objects, with returned arrays overwritten by the caller in between.",
 "Tests call each function once per fresh argument.",
 ['src/pwtools/num.py','src/pwtools/signal.py','src/pwtools/crys.py','src/pwtools/pydos.py','src/pwtools/eos.py','src/pwtools/thermo.py','src/pwtools/rbf/core.py','src/pwtools/rbf/hyperopt.py'],
 [('functions copy their inputs and keep no module state','src/pwtools/num.py')],[],['return values; arguments before/after'])

p('C20','Structure and trajectory containers stay consistent under any editing history',
 "After any history of setting, unsetting, unit application, copying, re-deriving, dumping and loading, all derived attributes of a structure or trajectory (fractional and Cartesian coordinates, cell and cell constants, volume, mass, temperature, kinetic energy, counts) agree with the primary data, and deriving twice changes nothing. "
 "Unit conversion is applied exactly once, and a copy or a dumped-and-loaded container equals the original and is independent of it, also if deriving was interrupted midway.",
 ['histories','crash_points'],
 "Every sequence of container operations, with an interrupt (Ctrl-C) delivered at any line of library code in between.",
 "Tests build one container and check the result of one derivation.",
 [CR,BA],[('UnitsHandler.apply_units once flag',CR),('set_all / try_set_attr',BA)],[],['attributes'])

p('C21','Output of killed or running single-point and phonon jobs: true values or nothing',
 "Reading the output of a single-point calculation (PWscf, CPMD, CP2K) or of a phonon calculation (dynamical matrices, normal modes, frequencies, Raman and IR activities) of a job that was killed at any byte, is still writing, or whose files cannot be read, gives the values of the complete output, nothing, or an error. "
 "It never gives values of the initial guess, of some atoms, modes or q-points only as if they were all, or numbers the program did not print; the dispersion plot tool draws nothing from such files.",
 ['crash_points','schedules'],
 "Every cut point and combination of cut and missing files, every interleaving of the program's appends with the reads of the parsers and their child processes, and every failing read, for any number of atoms and q-points.",
 "Tests parse complete sample outputs of finished calculations only.",
 [PA,'src/pwtools/pwscf.py',IO,'bin/plot_dispersion.py'],[('grep/sed/awk blocks with fixed numbers of lines',PA),('read_matdyn_modes, read_dynmat, read_dyn','src/pwtools/pwscf.py')],[],['returned dictionaries, parser attributes, plotted lines'])

p('C22','Command line tools give complete output of the current input or report failure',
 "A command line tool (solvate.sh, pdb2cif.py, cif2any.py, cif2sgroup.py, matdyn2fqha.py) that exits with status zero has written its complete output, made from the input files and arguments of this call, and every section of it describes the same structure. "
 "If an external program is missing, fails or is killed, an argument is wrong, or a file cannot be read or written completely, the exit status is not zero and no incomplete result is left under the name of a result. Whatever happens, files of the user are neither changed nor removed.",
 ['crash_points','fault_sequences','histories','inputs'],
 "Every structure, number of inserted molecules, file and directory name, state of the directory (earlier results, other files), failure of the external program, and every kill point or failing file operation of the script and its children.",
 "No test runs these programs.",
 ['bin/solvate.sh','bin/pdb2cif.py','bin/cif2any.py','bin/cif2sgroup.py','bin/matdyn2fqha.py',IO,PA],[('pipeline gmx, pdb2cif.py, cif2any.py in a temp dir','bin/solvate.sh'),('write_cif, read_pdb, read_cif',IO)],[],['exit status, output files, other files in the directory'])

# ---- pure functions: not applicable to this technique -------------------------------
def pure(id, title, statement, text, files, mech):
    p(id, title, statement, ['inputs'], text,
      "A property over all inputs; tests sample a few fixed examples.", files, [(mech, files[0])])
pure('N01','Coordinate and cell representations convert into each other without loss',
 "Cell vectors and cell constants, fractional and Cartesian coordinates, and their reciprocal forms convert back and forth without loss for every non-degenerate cell, including whole trajectories.",
 "All non-degenerate cells and coordinates.",[CR,'src/pwtools/num.py'],'cell2cc/cc2cell/coord_trans')
pure('N02','Phonon DOS from velocities: both methods agree and integrate correctly',
 "The power spectrum of the velocity autocorrelation and the direct transform give the same phonon density of states, normalised to the requested area, for every trajectory.",
 "All velocity arrays and time steps.",['src/pwtools/pydos.py','src/pwtools/signal.py'],'direct_pdos / vacf_pdos')
pure('N03','Equation-of-state fits recover their parameters',
 "Fitting energies generated by the model equation of state returns its parameters, and pressure and bulk modulus are the analytic derivatives of the fitted energy.",
 "All physically sensible E-V data.",['src/pwtools/eos.py'],'EosFit')
pure('N04','Harmonic thermodynamics obey their limits and identities',
 "Free energy, internal energy, entropy and heat capacity from a phonon DOS satisfy F = E - TS and the classical high-temperature and zero-temperature limits.",
 "All densities of states and temperatures.",['src/pwtools/thermo.py'],'HarmonicThermo')
pure('N05','Interpolators reproduce their nodes and derivatives match the function',
 "Spline, polynomial and radial-basis fits reproduce the training data within their regularisation and their derivatives match finite differences.",
 "All data sets, dimensions and kernels.",['src/pwtools/num.py','src/pwtools/rbf/core.py'],'Rbf/PolyFit/Spline')
pure('N06','Placeholder replacement replaces all and only the placeholders',
 "Template replacement substitutes every occurrence of every key by its value and nothing else, independent of key order when keys do not overlap.",
 "All texts and replacement tables.",[C],'template_replace')
pure('N07','Supercells, periodic wrapping and neighbour search preserve the crystal',
 "Supercells, wrapped images, radial pair distributions and neighbour lists represent the same infinite crystal as the original cell.",
 "All structures and supercell sizes.",[CR],'scell / pbc_wrap / rpdf / neighbors')
pure('N08','Array helpers follow their mathematical definitions',
 "Array helpers (slicing, summing, extending, unique-row matching, inner points, derivative operators, equal-shape mean of samples) equal their mathematical definition for every shape and axis.",
 "All shapes and axes.",['src/pwtools/num.py','src/pwtools/signal.py'],'num.*')
pure('N09','Nested loops over parameters enumerate the full product in order',
 "Parameter combination helpers enumerate every combination exactly once in loop order, for nested and zipped parameters.",
 "All parameter lists.",['src/pwtools/comb.py'],'nested_loops')

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for x in P:
            assert len(x['title'])<=80, (x['id'], len(x['title']))
            f.write(json.dumps(x)+'\n')
    print(len(P))
