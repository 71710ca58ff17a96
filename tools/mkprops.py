"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
S = 'src/lib/pytornado/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Each flight state of a batch gets exactly the result it would get alone',
 """In an analysis of a list of flight states, the result files and plots of the i-th state, the i-th entry of the
 aeroperformance map and the data returned to the caller for the last state equal those of an analysis of
 that state alone (same aircraft, controls, deformation and settings). Hence the outcome of a state depends
 neither on its position, nor on which or how many other states were analysed before it, nor on repeated
 states, and the k-th numbered output directory and k-th map entry always belong to the k-th listed state.""",
 ['histories', 'inputs', 'fault_sequences'],
 """Every list of flight states (any order, length 1 to more than ten, repetitions, every valid input
 combination), every valid aircraft with or without control surfaces, symmetry and deformation fields, every save option.""",
 """The only multi-state test asserts nothing (it prints the results); the other tests analyse one state.""",
 [S+'stdfun/run.py', S+'objects/state.py', S+'aero/vlm.py', S+'objects/aircraft.py', S+'fileio/native/results.py'],
 [('per-state loop and path counter', S+'stdfun/run.py standard_run'), ('state iterator', S+'objects/state.py iter_states'),
  ('lattice regeneration per state', S+'aero/vlm.py gen_lattice'), ('deformation lookup', S+'objects/aircraft.py get_deformed_segment_point')],
 [('vlmdata', 'one result object reused for all states', S+'stdfun/run.py'), ('aircraft', 'one model (with subdivisions, deformation fields) reused for all states', S+'stdfun/run.py')],
 ['_results/<settings>_NNN/*', '_results/<settings>_aeroperformance.json', 'return value of the analysis'])

prop('C02', 'An analysis does not depend on what the process did before',
 """The outputs and returned data of an analysis equal those of the same analysis in a fresh process, whatever
 the same process did before it: earlier analyses of the same or of other projects, model or settings loads and
 saves, analyses that failed with an error, or analyses cancelled by the user at an arbitrary moment.
 The data an earlier analysis returned to its caller is not altered by a later one.""",
 ['histories', 'fault_sequences', 'crash_points'],
 """Every sequence of API calls in one process before the analysis, every failing operation (disk, memory, kernel,
 solver, plotting) and every interruption point in those calls.""",
 """Tests run a few successful analyses in a row and do not compare outputs; none fails or is cancelled midway.""",
 [S+'stdfun/run.py', S+'objects/settings.py', S+'objects/utils.py', S+'objects/aircraft.py', S+'aero/vlm.py', S+'plot/plottools.py'],
 [('fresh objects per analysis', S+'stdfun/run.py standard_run'), ('default settings built per instance', S+'objects/utils.py get_default_dict')],
 [('DEFAULT_SETTINGS', 'module-level template of all settings', S+'objects/settings.py'), ('pyplot figure registry', 'process-global', S+'plot/plottools.py')],
 ['result files', 'return value of the analysis'])

prop('C03', 'Concurrent analyses do not disturb each other',
 """Analyses of different projects, or of the same project under different settings files, that run at the same time
 in several processes or in several threads of one process (plots off) each produce exactly the outputs and the returned data they
 produce when run one after the other, for every interleaving, and none fails because of another;
 nor do they disturb, or suffer from, other pytornado work beside them (loading, saving, cleaning, creating other projects). A fault or crash hitting one of them changes nothing in the outcome of the others.""",
 ['schedules', 'fault_sequences', 'crash_points'],
 """Every interleaving of 2 to 4 analyses at file-operation, kernel-call and (threads) statement granularity;
 every fault or crash in one of them; shared or separate project directories.""",
 """The tests run one analysis at a time.""",
 [S+'stdfun/run.py', S+'objects/settings.py', S+'fileio/native/results.py', S+'aero/vlm.py', S+'aero/c_vlm.cpp'],
 [('output names carry the settings name', S+'objects/settings.py generate_paths'), ('directory creation tolerates existing directories', 'commonlibs ProjectPaths.make_dirs_for_groups'),
  ('absolute paths, no working-directory change', S+'objects/settings.py')],
 [('module globals', 'must carry no per-analysis data', S)],
 ['_results', 'return value of the analysis'])

prop('C04', 'An analysis never modifies what belongs to the user',
 """Running or re-running an analysis (without asking for cleaning) creates missing standard project directories and otherwise
 creates or changes nothing but the log file of the process and its own entries in the results and plots directories: input files (aircraft, state,
 settings, airfoils, deformation), results of other settings files and foreign files keep their exact content, at every moment and however
 the analysis ends (success, error, full disk, cancellation, crash). (Analyses of CPACS projects, which by design write coefficients and airfoil files, are the subject of C13.) Nothing outside the project directory is created or modified.""",
 ['fault_sequences', 'crash_points', 'inputs'],
 """Every project, every failing file operation, allocation, kernel or plotting call, every interruption and crash point.""",
 """Tests never compare the project directory before and after, and inject no fault.""",
 [S+'stdfun/run.py', S+'objects/settings.py', S+'fileio/native', S+'plot/makeplots.py'],
 [('path table separating inputs and outputs', S+'objects/settings.py generate_paths')], (),
 ['every file-system mutation of the analysis', 'project tree before and after'])

prop('C05', 'Success means every requested output is there; no failure is swallowed',
 """If an analysis returns normally (or the command line exits with status 0), every requested result file and plot (saved or shown) of every state and the aeroperformance map
 exist, are complete and equal to those of an undisturbed analysis, and nothing that was not requested was written.
 If a read, write, directory, memory, kernel, solver or plotting operation that the analysis depends on failed, the analysis ends with an error
 (exception, non-zero exit) unless it nevertheless produced all of that; it always ends.""",
 ['fault_sequences', 'configurations', 'inputs'],
 """Every single or repeated failing operation at every point of the run, including disk full, short reads and writes, failing close, failed directory creation;
 every combination of save and plot options.""",
 """Tests run with healthy disk and memory and mostly check only that nothing is raised.""",
 [S+'stdfun/run.py', S+'fileio/native/results.py', S+'fileio/native', S+'plot/makeplots.py', S+'plot/plottools.py', 'src/bin/_pytornado_exe.py'],
 [('exceptions propagate', S+'stdfun/run.py standard_run'), ('save switches', S+'fileio/native/results.py save_all'), ('plot switches', S+'plot/makeplots.py make_all')], (),
 ['exit status / exception', '_results and _plots after the run'])

prop('C06', 'Re-running after an interruption gives the undisturbed outcome',
 """After an analysis (or a clean) was stopped at any point by an error, a cancellation, a crash or a full disk, simply running the analysis again with the fault gone succeeds without
 manual repair, and every output of that run equals the output of a run that was never disturbed.
 With cleaning requested, the whole results and plots directories equal those of an undisturbed run.""",
 ['crash_points', 'fault_sequences', 'histories'],
 """Every crash, fault and cancellation point, including sequences of several interrupted attempts, of an analysis with or without cleaning.""",
 """No test interrupts an analysis.""",
 [S+'stdfun/run.py', S+'objects/settings.py', S+'fileio/native/results.py', 'src/bin/_pytornado_exe.py'],
 [('outputs are overwritten by name', S+'fileio/native/results.py'), ('directories re-created per state', S+'stdfun/run.py'), ('clean', S+'objects/settings.py clean')], (),
 ['_results and _plots after the successful re-run'])

prop('C07', 'Saving a model, state or settings file is all-or-nothing',
 """Saving an aircraft model, flight state or settings over an existing file leaves at that name, at every moment and however the save ends (success, error, full disk, cancellation, crash),
 either the complete previous or the complete new content, and the new one if the save reported success; a concurrent load never fails or sees a mixture because of a save in progress. Saving does not alter the in-memory object that is saved, and what is saved
 loads back to the same model, state and (visible) settings, so that repeated load/save cycles, also after an analysis used the objects, are stable, and a saved project means the same after its
 directory was moved.""",
 ['crash_points', 'fault_sequences', 'schedules', 'histories'],
 """Every fault and crash point of a save, every interleaving of a save with a concurrent load in another process, every load/save/analyse sequence.""",
 """Tests write template files once with a healthy disk; none interrupts a save or reads concurrently.""",
 [S+'fileio/native/aircraft.py', S+'fileio/native/state.py', S+'fileio/native/settings.py', S+'fileio/utils.py'],
 [('JSON writers', S+'fileio/native'), ('hidden settings are stripped on save', S+'fileio/native/settings.py clean_dict')], (),
 ['file content after the save', 'result of a concurrent load', 'live object before and after'])

prop('C08', 'Creating a project template never touches existing work',
 """Creating a template project (empty example or from the aircraft database) never changes, removes or adds anything in a path that already exists: it refuses with a non-zero exit and leaves it as it was,
 and of several simultaneous creations in one directory at most one succeeds, the others failing without altering its files. If creation reports success, the project is complete, equals an undisturbed template and can be
 analysed; if any step of the creation failed, success is not reported.""",
 ['schedules', 'fault_sequences', 'crash_points', 'configurations'],
 """Every kind of pre-existing path (empty or full directory, file, link, interrupted earlier creation), every interleaving of 2 to 3 creators, every fault and crash point, every database aircraft.""",
 """The command-line tests create one template in a fresh directory.""",
 [S+'stdfun/setup.py', S+'database/tools.py', 'src/bin/_pytornado_exe.py'],
 [('existence check and directory creation', S+'stdfun/setup.py setup_wkdir'), ('database lookup', S+'database/tools.py get_aircraft_file_path')], (),
 ['exit status', 'directory tree'])

prop('C09', 'Cleaning removes exactly the generated results and plots',
 """Cleaning a project removes the generated results and plots directories completely and never touches any other file of the project or anything outside it (also not through symbolic links found inside them), however it ends.
 If cleaning reports success they are gone; if something could not be removed this is reported as an error, and cleaning again once the obstacle is gone finishes the job; cleaning is idempotent.""",
 ['fault_sequences', 'crash_points', 'histories'],
 """Every content of the output directories (nested, foreign files, links), every failing removal, crash and cancellation point, repeated cleaning.""",
 """No test cleans a project.""",
 [S+'objects/settings.py', S+'stdfun/run.py', 'src/bin/_pytornado_exe.py'],
 [('removal of the temporary directory group', S+'objects/settings.py clean')], (),
 ['every removal operation', 'tree after cleaning', 'exit status'])

prop('C10', 'Repeated analyses do not accumulate resources',
 """However many analyses, loads and saves a process performs and however each of them ends (success, error, failed file, kernel, solver or plotting operation), once the returned objects are dropped no open file, no open plot figure
 and no analysis data (lattice, matrix and result arrays, models) of a finished call stays alive, so that resource use does not grow with the number of analyses or flight states.""",
 ['histories', 'fault_sequences'],
 """Every sequence of analyses with any number of states and any plot options, each ending in success or in any injected failure.""",
 """Each test runs one or two analyses and looks at no resource.""",
 [S+'aero/c_vlm.cpp', S+'plot/plottools.py', S+'plot/downwash.py', S+'fileio/native', S+'stdfun/run.py'],
 [('reference counting at the C boundary', S+'aero/c_vlm.cpp'), ('figures closed after each plot', S+'plot/plottools.py plot2d3d'), ('with-statements', S+'fileio')], (),
 ['open file descriptors', 'open figures', 'live arrays after collection'])

prop('C11', 'A failed or impossible solution is never presented as a result',
 """If the linear system is reported singular or not solved by the solver, or the numerical kernel or an allocation the solution needs fails, the analysis ends with an error, returns no data, and writes neither
 result files nor plots for that state nor an aeroperformance map, in whichever state of a batch it happens. What earlier states of the batch had already written stays as in an undisturbed run.""",
 ['fault_sequences', 'inputs'],
 """Every state index at which the solver, kernel or allocation fails, every save and plot option; genuinely degenerate geometries.""",
 """Tests only solve well-posed systems; no test makes solver or kernel fail.""",
 [S+'aero/vlm.py', S+'aero/c_vlm.cpp', S+'stdfun/run.py'],
 [('LAPACK status', S+'aero/vlm.py solver'), ('error returns of the kernel', S+'aero/c_vlm.cpp'), ('order solve, then save', S+'stdfun/run.py')], (),
 ['exception', 'files written after the failure'])

prop('C12', 'A result file that exists is complete and agrees with the others',
 """At every moment, also for a process reading concurrently and after a crash at any point, each result file that exists under its final name is complete: it holds either the full new or the full previous content, never a part or a mixture.
 The aeroperformance map appears only after all states were analysed, has one entry per state, and agrees with the per-state global results; forces and coefficients, panelwise and matrix files agree with each other and with the data returned to the caller.""",
 ['crash_points', 'schedules', 'fault_sequences'],
 """Every crash and fault point of an analysis, every interleaving with a concurrent reader, first runs and overwriting re-runs.""",
 """Tests read results only after a successful, undisturbed run, if at all.""",
 [S+'fileio/native/results.py', S+'stdfun/run.py', S+'fileio/utils.py'],
 [('result writers', S+'fileio/native/results.py'), ('map written after the loop', S+'stdfun/run.py')], (),
 ['content of result files after every file-system operation'])

prop('C13', 'CPACS files are updated all-or-nothing and always released',
 """When an analysis writes its aeroperformance map back to the CPACS file, the file holds at every moment and however it ends either its complete previous content or the complete update, in which each CPACS coefficient vector
 (cl, cd, cs, cmd, cms, cml) holds the matching result of every state in order and all other content is unchanged (also what somebody else has saved there while the states were computed); an analysis that fails before the update and a failed update leave the previous content. Every CPACS or geometry handle that was opened is closed, on success and on failure.""",
 ['fault_sequences', 'crash_points', 'histories'],
 """Every failing library call, file operation, kernel call and crash point of an analysis on a CPACS project; CPACS aircraft with native state and CPACS state.""",
 """The CPACS tests cannot run here or upstream without the proprietary libraries, and inject no fault.""",
 [S+'fileio/cpacs/utils.py', S+'fileio/cpacs/results.py', S+'fileio/cpacs/aircraft.py', S+'fileio/cpacs/state.py', S+'stdfun/run.py'],
 [('modify_cpacs context manager', S+'fileio/cpacs/utils.py'), ('key mapping', S+'fileio/cpacs/results.py')], (),
 ['CPACS file content', 'open handles of the library'])

prop('C14', 'An analysis depends on nothing but its project files',
 """Outputs and returned data are a function of the project files and settings only: they do not depend on the clock (also when it jumps or stands still), the hash seed, process identity, machine, number of processors, the current directory, how the settings path is spelled (also through links), the location of the project,
 the order in which directories list their entries, I/O buffer sizes, short reads and writes, or stale memory contents. Only log time stamps and plot file names may vary.""",
 ['configurations', 'schedules', 'inputs'],
 """Every environment of the listed kinds for every project.""",
 """Tests run in one environment and compare nothing between runs.""",
 [S+'stdfun/run.py', S+'aero/vlm.py', S+'aero/c_vlm.cpp', S+'fileio/native', S+'objects/settings.py'],
 [('absolute paths from the settings file', S+'fileio/native/settings.py load'), ('pre-zeroed arrays handed to the kernel', S+'aero/vlm.py')], (),
 ['result files', 'return value of the analysis'])

prop('C19', 'Converting a CPACS aircraft to a native model is faithful and all-or-nothing',
 """After a conversion that reports success the native aircraft model file and its airfoil files describe the aircraft of the CPACS file: loading either gives the same model, and an analysis of either the same results.
 However the conversion ends (success, error, full disk, cancellation, crash), at every moment the model file and every airfoil file hold their complete previous or their complete new content, the CPACS file and every other file
 of the project stay as they were, every CPACS and geometry handle is closed, and converting again gives the undisturbed outcome; processes loading the native model or converting at the same time are not disturbed.""",
 ['fault_sequences', 'crash_points', 'schedules'],
 """Every CPACS aircraft, with or without an earlier native model; every failing library call and file operation, every interruption and crash point; every interleaving with a loader or a second conversion.""",
 """The conversion needs proprietary libraries absent from the test environment; nothing tests it.""",
 [S+'stdfun/setup.py', S+'fileio/cpacs/aircraft.py', S+'fileio/native/aircraft.py', S+'fileio/utils.py', 'src/bin/_pytornado_exe.py'],
 [('conversion', S+'stdfun/setup.py cpacs2pytornado'), ('model reader', S+'fileio/cpacs/aircraft.py load'), ('model writer', S+'fileio/native/aircraft.py save')], (),
 ['native model and airfoil files', 'open handles of the library', 'exit status'])
prop('C20', 'A cancellation reaches the caller at once',
 """When the user cancels pytornado (Ctrl-C) at any moment while it analyses, cleans, creates a template, converts, loads or saves, the cancellation reaches the caller: the function called raises KeyboardInterrupt and is never left normally or with another
 error, the command ends with a nonzero status. Nothing more is done than tidying up: no further flight state is analysed, no kernel, solver, plot or library work is started, no output, model or CPACS file is created or changed, cleaning removes nothing more, and no temporary
 file is left behind. This also holds when the user cancels again while pytornado tidies up, or while it is dealing with a failure.""",
 ['fault_sequences', 'schedules'],
 """Every point at which a cancellation can arrive in every operation, alone or combined with an earlier failure or a second cancellation.""",
 """No test cancels anything.""",
 [S+'stdfun/run.py', S+'plot', S+'fileio', S+'objects/settings.py', S+'stdfun/setup.py', 'src/bin/_pytornado_exe.py'],
 [('loop over the flight states', S+'stdfun/run.py standard_run'), ('atomic writers', S+'fileio/utils.py open_atomic'), ('CPACS update', S+'fileio/cpacs/utils.py modify_cpacs'), ('clean', S+'objects/settings.py clean')], (),
 ['exception or exit status', 'project files after the cancellation'])
prop('C21', 'A call leaves the process of its caller as it was',
 """pytornado is used as a library in scripts, notebooks and aeroelastic frameworks. Whatever is called (analysis, cleaning, template, conversion, loading, saving) and however it ends (success, invalid input, any failure, cancellation), afterwards the process of the
 caller is as it was before: current directory, environment variables, umask, signal handlers, standard streams, hooks, module search path, arguments, recursion limit, states of the random generators, floating-point error handling and print options of numpy, decimal context, locale,
 warning filters, garbage collector settings, running threads, exit handlers, matplotlib settings and backend have the values they had, also values the caller has chosen, and figures the caller has open stay open. (The log configuration is the documented exception.)""",
 ['fault_sequences', 'histories'],
 """Every call, every project, every settings of the caller, every point at which it fails or is cancelled.""",
 """No test looks at the process after a call, none lets one fail.""",
 [S+'stdfun', S+'aero/vlm.py', S+'plot', S+'fileio', S+'objects'],
 [('analysis', S+'stdfun/run.py standard_run'), ('set-up functions', S+'stdfun/setup.py'), ('plots', S+'plot/makeplots.py')], (),
 ['state of the process of the caller'])
prop('C22', 'An analysis works on one reading of its inputs',
 """While an analysis of a project runs, its user or a framework may already prepare the next one: replace (each as a whole) or remove input files. A settings, aircraft, flight state or deformation file replaced while the analysis is being set up counts either in its old or in its new
 version, the same one for every flight state, result file, plot and returned datum. Once the first flight state is being computed nothing that happens to the input files, airfoils included, changes the outcome or makes the analysis fail.""",
 ['schedules', 'histories'],
 """Every moment at which an input can be replaced, rewritten or removed during an analysis, every pair of such edits.""",
 """Tests never touch the inputs of an analysis in progress.""",
 [S+'stdfun/run.py', S+'fileio/native', S+'objects/aircraft.py', S+'objects/settings.py'],
 [('set-up of the analysis', S+'stdfun/run.py standard_run'), ('readers', S+'fileio/native'), ('airfoils are read with the model', S+'objects/aircraft.py _import_airfoils')], (),
 ['result files and plots', 'data returned to the caller'])
prop('C15', 'Lift, drag and moments follow vortex-lattice theory',
 """Computed circulations satisfy the flow-tangency condition and forces and coefficients follow the Kutta-Joukowski theorem and the documented axes for every geometry and flight state.""",
 ['inputs'], """Every geometry and flight state.""", """Tests check no numerical value.""",
 [S+'aero/vlm.py', S+'aero/c_downwash.cpp', S+'aero/c_boundary.cpp', S+'aero/c_results.cpp'], [('kernel', S+'aero')])
prop('C16', 'Symmetric configurations carry no side loads',
 """A symmetric aircraft without asymmetric deflection, side slip, roll or yaw rate has zero side force, rolling and yawing moment.""",
 ['inputs'], """Every symmetric geometry and flight state.""", """Tests check no numerical value.""",
 [S+'aero/vlm.py', S+'aero/c_results.cpp'], [('mirrored lattice', S+'aero/vlm.py gen_lattice')])
prop('C17', 'Invalid inputs are rejected, valid combinations are completed correctly',
 """Flight states accept exactly the documented parameter combinations, derive density and airspeed from the standard atmosphere and reject other combinations, wrong types and out-of-range values; settings and models likewise.""",
 ['inputs'], """Every input file.""", """Tests use a few valid inputs.""",
 [S+'objects/state.py', S+'objects/utils.py', S+'objects/aircraft.py'], [('validation', S+'objects')])
prop('C18', 'Geometry, controls and panelling follow the documented conventions',
 """Segment vertices, mirroring, control-surface subdivision, hinge axes, deformation and panel counts follow the documented geometric conventions.""",
 ['inputs'], """Every geometry definition.""", """Tests cover few geometries.""",
 [S+'objects/aircraft.py', S+'aero/vlm.py'], [('geometry generation', S+'objects/aircraft.py')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fp.write(json.dumps(p) + '\n')
