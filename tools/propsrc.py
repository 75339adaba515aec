HOOKS = {
    "guard": "none (no hook was needed in /repo: every seam is a function or "
             "module attribute the code already looks up at call time)",
    "enable": "nothing to enable; the checks replace open/os functions, "
              "clocks, pools, timers and readers from outside",
    "source_commits": [],
}

FO = "IMTreatment/file_operation/file_operation.py"
VOD = "IMTreatment/vortex_detection/vortex_detection.py"
DST = "deterministic simulation with fault injection: "

CLAIMED = [
 {
  "id": "C01",
  "title": "Native save is all-or-nothing, and durable once acknowledged",
  "statement": "Once saving an object to a native file (compressed or not) "
  "has returned, loading that file gives an equal object, in this process or "
  "any later one. If the process is killed, interrupted, or meets a storage "
  "error or an object that cannot be stored at any point of a save, every "
  "later or concurrent load of that file gives exactly the object saved "
  "before or exactly the new one, and no other file is affected. Two "
  "processes that save to the same file at once both succeed, and leave one "
  "of the two objects. Saving never alters the saved object.",
  "quantifier": {"over": ["crash_points", "fault_sequences", "histories"],
    "text": "every history of saves and loads, every object kind, every kill, "
    "interrupt or I/O failure at any step inside a save or a load"},
  "why_tests_cant": "Tests save and load once, without any failure; they "
  "never kill a process nor fail a write in the middle of a save over "
  "existing data.",
  "anchors": {"files": [FO], "mechanism": [
      {"name": "export_to_file / import_from_file", "where": FO},
      {"name": "extension handling, check_path", "where": FO}],
    "state": [{"name": "the file on disk", "where": FO,
               "meaning": "the last acknowledged object"}],
    "observe_at": ["result of loading the file after a restart"],
    "hook_needed": None},
  "technique": DST + "crash points, I/O errors and concurrent readers inside "
  "saves, against an old-or-new reference model over process lives",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling of histories, fault kinds and fault "
  "positions; real code, real process death; models process crash, not power "
  "loss.",
 },
 {
  "id": "C02",
  "title": "A damaged native file is refused, never loaded as different data",
  "statement": "Loading a compressed native file whose stored bytes were "
  "altered in any way (flipped bits, lost, zeroed, duplicated or moved "
  "blocks, truncation) either raises an error or returns exactly the object "
  "that was saved. The same holds for an uncompressed native file that was "
  "cut short at any byte.",
  "quantifier": {"over": ["fault_sequences", "inputs"],
    "text": "every saved object and every damage of the stored bytes"},
  "why_tests_cant": "Tests only load intact files.",
  "anchors": {"files": [FO], "mechanism": [
      {"name": "import_from_file (checksum of the compressed stream)",
       "where": FO}],
    "observe_at": ["object returned or error raised by the load"],
    "hook_needed": None},
  "technique": DST + "random damage of the stored bytes between two process "
  "lives, exact-or-error oracle",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling of objects and damages; detection by the "
  "32-bit checksum is trusted up to random collisions.",
 },
 {
  "id": "C03",
  "title": "File operations leave the process as they found it, even failing",
  "statement": "After any import, export, conversion or memoized call, "
  "whether it succeeded or failed (missing or damaged file, object that "
  "cannot be stored, storage error or interrupt in the middle of the I/O), "
  "the garbage collector is on or off as before, no file descriptor stays "
  "open, and the working directory and interpreter-wide settings are "
  "unchanged. An operation during which nothing failed succeeds, whatever "
  "failed before it.",
  "quantifier": {"over": ["fault_sequences", "histories"],
    "text": "every sequence of file operations and every failure point "
    "inside their I/O"},
  "why_tests_cant": "Tests never look at process-wide state and never make "
  "an I/O operation fail midway.",
  "anchors": {"files": [FO, "IMTreatment/utils/memoization.py"],
    "mechanism": [
      {"name": "gc handling of import/export", "where": FO},
      {"name": "gc handling of memoization",
       "where": "IMTreatment/utils/memoization.py"}],
    "state": [{"name": "gc state, descriptor table, cwd",
               "meaning": "process-wide settings", "where": "process"}],
    "observe_at": ["process state after each call"], "hook_needed": None},
  "technique": DST + "failing I/O steps inside sequences of file operations, "
  "process-state snapshots as invariant",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling over 22 file operations and fault positions "
  "calibrated on the operation's own I/O steps.",
 },
 {
  "id": "C04",
  "title": "A function memoized to a file answers like the function itself",
  "statement": "Every call of a function memoized to a file of its own "
  "returns what the function itself returns for these arguments, whatever "
  "happened before to the cache file (a writer killed or failing midway, "
  "damaged, truncated or removed bytes, other processes using it at the same "
  "time) and whatever callers did to results they received; it can fail only "
  "if the function fails or storage fails during that very call. A result "
  "once returned is not computed again by that process, nor by a later one "
  "when the cache file was left in peace.",
  "quantifier": {"over": ["crash_points", "fault_sequences", "histories",
                          "schedules"],
    "text": "every history of calls, restarts, concurrent users, crashes and "
    "damages of the cache file"},
  "why_tests_cant": "The memoization helper has no test at all.",
  "anchors": {"files": ["IMTreatment/utils/memoization.py"], "mechanism": [
      {"name": "memoize_to_file", "where": "IMTreatment/utils/memoization.py"}
      ],
    "state": [{"name": "cache file and in-memory cache",
               "meaning": "results already computed",
               "where": "IMTreatment/utils/memoization.py"}],
    "observe_at": ["returned values", "number of executions"],
    "hook_needed": None},
  "technique": DST + "call histories over process lives with crashes, damage "
  "and concurrent users of the cache, against the plain function",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling; reference model is the undecorated function "
  "plus the set of keys persisted.",
 },
 {
  "id": "C05",
  "title": "The deletion tool removes what was selected and confirmed, only",
  "statement": "The Files tool selects exactly the entries its regular "
  "expressions, depth limit and flags describe. Its deletion (and "
  "remove_files_in_dirs) removes nothing before and nothing without a "
  "confirmation of the user, never anything outside the selection (links are "
  "not followed, folders that are not empty only after their own question or "
  "with recursive=True), whatever the user answers, in whatever order the "
  "system lists entries, and whatever other processes create or delete "
  "meanwhile. When it returns normally, everything confirmed is gone or its "
  "failure was reported; after an error or interrupt the rest is untouched "
  "and a second call finishes the work.",
  "quantifier": {"over": ["inputs", "fault_sequences", "schedules"],
    "text": "every tree, selection, answer sequence, listing order, "
    "interference of other processes and failing removal"},
  "why_tests_cant": "Nothing of the deletion tool is tested; the dangerous "
  "cases need interference, refusals or interrupts in the middle.",
  "anchors": {"files": ["IMTreatment/utils/files.py"], "mechanism": [
      {"name": "Files.load_files_from_regex, remove_files, "
       "delete_existing_files; remove_files_in_dirs",
       "where": "IMTreatment/utils/files.py"}],
    "observe_at": ["the tree before and after", "questions asked"],
    "hook_needed": None},
  "technique": DST + "jailed file system with drawn listing orders, answers, "
  "interfering processes, refused removals and interrupts at any line, "
  "against a set model of the tree",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling; removals really happen, in a scratch tree; "
  "those aimed outside are refused and reported.",
 },
 {
  "id": "C06",
  "title": "Folder imports depend on the files, not on the listing order",
  "statement": "Importing, converting, concatenating or searching the files "
  "of a folder takes each matching file exactly once, in the order of the "
  "file names (in the given range and increment, with the time given for "
  "it), whatever the order in "
  "which the file system enumerates the folder and whatever else it holds. A "
  "read error, or a file another process removes in the middle, is reported "
  "and never gives a shorter or reordered result; a failed conversion leaves "
  "an existing output file as it was.",
  "quantifier": {"over": ["schedules", "inputs", "fault_sequences"],
    "text": "every set of file names, enumeration order, interference and "
    "read failure"},
  "why_tests_cant": "Tests see the one enumeration order of the machine they "
  "run on, and intact files.",
  "anchors": {"files": [FO, "IMTreatment/core/temporalfields.py"],
    "mechanism": [{"name": "import_from_IM7s/VC7s/pictures, IM7_to_imt, "
                   "VC7_to_imt, imts_to_imt, import_vfs_from_ascii, "
                   "find_file_in_path", "where": FO}],
    "observe_at": ["order and content of the imported fields"],
    "hook_needed": None},
  "technique": DST + "permuted directory enumeration, failing reads and "
  "interfering processes, against the list of the sorted names",
  "level": "exploration",
  "level_note": "Seeded sampling of names, orders and faults; the IM7/VC7 "
  "decoder (ReadIM) is a stub reading JSON.",
 },
 {
  "id": "C07",
  "title": "Parallel critical point detection equals the sequential one",
  "statement": "Detecting the critical points of a field or of a sequence of "
  "fields gives exactly what detecting each field on its own gives, for "
  "every number of processes ('all' included), every assignment of the work "
  "to them and every order of completion. A task failing in its process, a "
  "pool that cannot start or an interrupt is raised to the caller, never "
  "turned into a partial result; the given fields are never altered, and a "
  "later call succeeds.",
  "quantifier": {"over": ["schedules", "inputs", "fault_sequences"],
    "text": "every field or sequence without masked values (empty ones "
    "included), detection kind, mirroring and smoothing; every pool size, "
    "schedule and failure"},
  "why_tests_cant": "Tests detect on one field in one process.",
  "anchors": {"files": [VOD],
    "mechanism": [{"name": "get_critical_points (map over a pool), "
                   "CritPoints.__add__", "where": VOD}],
    "observe_at": ["returned CritPoints", "the given fields"],
    "hook_needed": None},
  "technique": DST + "simulated process pool (real isolated processes, drawn "
  "assignment and completion order, failing tasks and pools), against the "
  "detection field by field",
  "level": "exploration",
  "level_note": "Seeded sampling of flows, options and schedules.",
 },
 {
  "id": "C08",
  "title": "The viewer shows the frame it says it shows, and only that one",
  "statement": "At any moment of an interactive session on a sequence of "
  "fields, points or profiles (keys, clicks, slider, film playing, several "
  "overlaid or linked viewers, drawings that failed before), whatever the "
  "size of the buffer of drawings, the axes hold exactly the drawings of the "
  "current frame of each displayed object and none of another frame, the "
  "slider is on that frame, and its colours and colour bar span the values "
  "of the sequence (shared) or of that frame (not shared). A saved animation "
  "holds each frame of the interval exactly once, in order; an error of its "
  "writer is raised, and the viewer is back on the frame it was on.",
  "quantifier": {"over": ["schedules", "histories", "fault_sequences"],
    "text": "every sequence of user events and timer ticks, kind of data and "
    "plot, buffer size, failing drawing or film writer"},
  "why_tests_cant": "The few display tests open a viewer and look at "
  "nothing; a stale or left-over drawing shows after particular moves and "
  "buffer sizes only.",
  "anchors": {"files": ["IMTreatment/plotlib/plotlib.py"], "mechanism": [
      {"name": "Displayer.draw and its buffer, ButtonManager.update, "
       "save_animation", "where": "IMTreatment/plotlib/plotlib.py"}],
    "state": [{"name": "draws, curr_plot, displ_saved_inds",
               "meaning": "drawings kept, the one shown",
               "where": "IMTreatment/plotlib/plotlib.py"}],
    "observe_at": ["artists on the axes, slider, colour bar, film frames"],
    "hook_needed": None},
  "technique": DST + "simulated desktop (events, virtual clock, film writer, "
  "failing drawings) around the real viewer, against the data of the frame",
  "level": "exploration",
  "level_note": "Seeded sampling of sessions of 8-40 events; pixels are "
  "rendered in a few runs only and not compared.",
 },
 {
  "id": "C09",
  "title": "The viewer goes where it is told, and plays at the given pace",
  "statement": "In an interactive viewer every key, click, slider move and "
  "timer tick leads to the frame its documentation describes: next and "
  "previous move by the typed number or else the set increment and stop at "
  "the ends, 'first', 'last' and 'go to' obey the typed number and ignore "
  "numbers of frames that do not exist, limits are existing frames in order, "
  "playing shows a new frame each interval, over all frames or between the "
  "two limits, and stops when told; a typed number serves the next key only. "
  "The current frame always exists, linked viewers follow each other, others "
  "do not move, and a drawing that failed does not disable any control.",
  "quantifier": {"over": ["schedules", "histories", "fault_sequences"],
    "text": "every sequence of user events and timer ticks on one or two "
    "viewers of 1-8 frames, failing drawings included"},
  "why_tests_cant": "No test sends an event to a viewer.",
  "anchors": {"files": ["IMTreatment/plotlib/plotlib.py"], "mechanism": [
      {"name": "ButtonManager: keyf, nextf, prevf, goto*, set_lims, playf, "
       "timer_play, slid, linked graphs",
       "where": "IMTreatment/plotlib/plotlib.py"}],
    "state": [{"name": "ind, incr, ind_lims, tmp_key_number, play timer",
               "meaning": "navigation",
               "where": "IMTreatment/plotlib/plotlib.py"}],
    "observe_at": ["current frame of each viewer after each event"],
    "hook_needed": None},
  "technique": DST + "simulated desktop with a virtual clock, against an "
  "executable model of the navigation",
  "level": "exploration",
  "level_note": "Seeded sampling. Whether the second limit itself is played "
  "is left open.",
 },
 {
  "id": "C10",
  "title": "Progress display is right and harmless, whatever the clock does",
  "statement": "A progress counter displays the number of things done, the "
  "total, the percentage, the elapsed and the expected duration that "
  "correspond to the steps made and the clock read, always displays the last "
  "step, prints its end message exactly once, and never fails nor displays "
  "an absurd duration when the clock stalls, runs for days or is set forward "
  "or back. The long operations announce as many things as they treat, and "
  "give the same result with and without display.",
  "quantifier": {"over": ["schedules", "inputs"],
    "text": "every number of things and display interval, every behaviour of "
    "the clock between two steps"},
  "why_tests_cant": "Tests run with one real clock and look at no output.",
  "anchors": {"files": ["IMTreatment/utils/progresscounter.py"],
    "mechanism": [{"name": "ProgressCounter",
                   "where": "IMTreatment/utils/progresscounter.py"}],
    "observe_at": ["text displayed", "results of the operations"],
    "hook_needed": None},
  "technique": DST + "simulated clock (stalls, long steps, jumps) under the "
  "progress counter and the operations using it, against a count model",
  "level": "exploration",
  "level_note": "Seeded sampling of clocks, totals and 11 long operations.",
 },
 {
  "id": "C11",
  "title": "Silencing the compiled code's output is undone in every case",
  "statement": "Inside RemoveFortranOutput nothing written to the standard "
  "output and error descriptors is seen; when the block is left (normally, "
  "by an exception, an interrupt, nested or reused) or could not be entered, "
  "both descriptors refer again to what they did before, no descriptor is "
  "lost or leaked, the exception goes on unchanged, and everything written "
  "outside the blocks is there.",
  "quantifier": {"over": ["fault_sequences", "histories"],
    "text": "every nesting and sequence of blocks, every exception in the "
    "body and every failing descriptor call while entering"},
  "why_tests_cant": "Untested; the leaks show only after many uses and the "
  "losses only when a descriptor call fails.",
  "anchors": {"files": ["IMTreatment/utils/codeinteraction.py"],
    "mechanism": [{"name": "RemoveFortranOutput",
                   "where": "IMTreatment/utils/codeinteraction.py"}],
    "state": [{"name": "descriptor table", "where": "process",
               "meaning": "where outputs go"}],
    "observe_at": ["descriptor table", "bytes written"],
    "hook_needed": None},
  "technique": DST + "failing descriptor calls, exceptions and interrupts in "
  "sequences of nested silenced blocks, descriptor-table invariant",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling; real kernel descriptors.",
 },
 {
  "id": "C12",
  "title": "Questions and returning treatments alter nothing",
  "statement": "Asking something about an object (property, statistic, "
  "profile, spectrum, criterion, detection, display ...) or making another "
  "object out of it (arithmetic, returning version of a treatment, derived "
  "field) alters neither the object nor any argument of the caller (other "
  "fields, points, lists, arrays, dictionaries), not even a default argument "
  "of a later call - whether it succeeds, fails, or is interrupted at any "
  "line. The altering (inplace) versions alter the object they are called on "
  "and no argument. The same question asked again gets the same answer.",
  "quantifier": {"over": ["histories", "fault_sequences", "inputs"],
    "text": "every object kind, masked or not, every sequence of "
    "operations, every point at which one of them is interrupted or runs out "
    "of memory"},
  "why_tests_cant": "Tests look at the returned object of single calls that "
  "succeed; they look neither at the operands afterwards nor at operations "
  "stopped midway (where a temporary modification is not undone).",
  "anchors": {"files": ["IMTreatment/core/scalarfield.py",
                        "IMTreatment/core/vectorfield.py",
                        "IMTreatment/core/points.py",
                        "IMTreatment/core/temporalfields.py",
                        "IMTreatment/core/temporalpoints.py",
                        "IMTreatment/core/profile.py",
                        "IMTreatment/field_treatment/field_treatment.py",
                        VOD, "IMTreatment/pod/pod.py"],
    "mechanism": [{"name": "inplace=False branches, arithmetic operators, "
                   "get_* methods", "where": "IMTreatment/core"}],
    "observe_at": ["public attributes of the object and of the arguments"],
    "hook_needed": None},
  "technique": DST + "seeded operation histories with interrupts and failing "
  "allocations at drawn lines, invariant: operands unchanged bit for bit",
  "level": "exploration",
  "level_note": "Seeded sampling of objects, arguments, histories and stop "
  "points over a table of some 300 operations.",
 },
 {
  "id": "C13",
  "title": "Objects are values: altering one never alters another one",
  "statement": "An object shares nothing with the objects it was made from "
  "or that were made from it, nor with the arrays and objects its builder or "
  "an altering method was given: altering one of them afterwards - by an "
  "inplace treatment (even one that fails or is interrupted midway), by a "
  "setter, or by writing into its arrays - leaves every other one exactly as "
  "it was. Operations that make an object return a new one. The altering "
  "(inplace=True) and the returning (inplace=False) versions of a treatment "
  "give the same object.",
  "quantifier": {"over": ["histories", "fault_sequences", "inputs"],
    "text": "every history of makings, alterations and writes over a growing "
    "set of objects of all kinds, alterations stopped at any line included"},
  "why_tests_cant": "Tests check each result right after it was computed; a "
  "shared array shows only when one of two related objects is altered later, "
  "and only for particular pairs of operations.",
  "anchors": {"files": ["IMTreatment/core/field.py",
                        "IMTreatment/core/scalarfield.py",
                        "IMTreatment/core/vectorfield.py",
                        "IMTreatment/core/profile.py",
                        "IMTreatment/core/points.py",
                        "IMTreatment/core/orientedpoints.py",
                        "IMTreatment/core/temporalfields.py",
                        "IMTreatment/core/temporalpoints.py",
                        "IMTreatment/core/spatialfields.py",
                        VOD],
    "mechanism": [{"name": "copy(), setters, import_from_arrays, add_field, "
                   "inplace branches, operators", "where":
                   "IMTreatment/core"}],
    "observe_at": ["public attributes of all the objects the caller holds"],
    "hook_needed": None},
  "technique": DST + "seeded histories over a growing set of objects, with "
  "interrupted alterations and writes of the caller; invariant: nothing but "
  "the altered object changes; oracle for the altered one: the returning "
  "version on a deep copy",
  "level": "exploration",
  "level_note": "Seeded sampling. Iterating over an object and reading its "
  "attributes hand out its own parts on purpose.",
 },
 {
  "id": "C14",
  "title": "Several threads may ask about the same object at once",
  "statement": "When several threads ask questions about the same object "
  "(properties, statistics, profiles, criteria, detections ...) or make "
  "other objects out of it at the same time, each one gets what it would "
  "have got alone, whatever the interleaving, and the object is afterwards "
  "as before. (Drawing on the one current figure, and scipy's solvers, "
  "which cannot run twice at once, are not included.)",
  "quantifier": {"over": ["schedules", "inputs"],
    "text": "every object kind, every 2-3 threads asking 1-3 questions each, "
    "every interleaving at the lines of IMTreatment"},
  "why_tests_cant": "Tests run one call at a time.",
  "anchors": {"files": ["IMTreatment/core/scalarfield.py",
                        "IMTreatment/core/vectorfield.py",
                        "IMTreatment/core/temporalfields.py",
                        "IMTreatment/core/points.py",
                        "IMTreatment/vortex_criterions/vortex_criterions.py",
                        VOD, "IMTreatment/pod/pod.py"],
    "mechanism": [{"name": "get_* methods, returning treatments, modules' "
                   "functions on fields", "where": "IMTreatment"}],
    "observe_at": ["answers of the threads, public attributes afterwards"],
    "hook_needed": None},
  "technique": DST + "threads handing over one baton at drawn lines of the "
  "code; oracle: the answers each one gets alone",
  "level": "exploration",
  "level_note": "Seeded sampling of interleavings at line granularity; "
  "switches inside numpy are not simulated.",
 },
 {
  "id": "C15",
  "title": "The staged POD / critical points protocol resumes where it was "
  "stopped",
  "statement": "However often POD_CP_protocol.compute_everything (or "
  "recompute_everything) is killed, interrupted, or fails for want of "
  "memory or disk, calling it again finishes, whatever the free memory and "
  "the number of processes: all result files and pictures are then there, "
  "complete, and equal to what the steps give on the measurements; steps "
  "that were finished are not done again by compute_everything, "
  "recompute_everything redoes all of them, and the measurements are never "
  "altered. A failure is raised, never hidden.",
  "quantifier": {"over": ["crash_points", "fault_sequences", "schedules"],
    "text": "every kill, interrupt or failure at any I/O step or line of the "
    "protocol, any number of times, and every setting of the protocol that "
    "leaves something to reconstruct"},
  "why_tests_cant": "The protocol has no test; lost intermediate results "
  "need a kill between two particular file operations.",
  "anchors": {"files": ["IMTreatment/protocols/protocols.py", FO],
    "mechanism": [{"name": "POD_CP_protocol", "where":
                   "IMTreatment/protocols/protocols.py"}],
    "state": [{"name": "_mean, _cln, _pod, _rec, _traj files",
               "meaning": "which steps are finished",
               "where": "IMTreatment/protocols/protocols.py"}],
    "observe_at": ["result files after the last call"],
    "hook_needed": None},
  "technique": DST + "crashes, interrupts and I/O errors at drawn I/O steps "
  "and lines over process lives, against the same chain of library calls "
  "made in memory",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling; displays run for real in a few runs only.",
 },
 {
  "id": "C16",
  "title": "A sequence in time keeps each field with its own time, in order",
  "statement": "Whatever the history of additions (in any order and time "
  "unit), removals, crops, changes of units, origin, scale and resolution, "
  "smoothing, filling, sums and products, saves and reloads, a sequence of "
  "fields or points in time holds exactly the fields it was given minus the "
  "removed ones, each with its own time, in increasing order of time, on "
  "common axes and units, and a treatment of the sequence gives each field "
  "what it would get alone. An addition, removal, temporal crop, change "
  "of the time unit or assignment of times that cannot be satisfied (another "
  "type, other axes, incompatible unit, index or interval out of range, "
  "wrong number of times, no memory left) raises an error and leaves the "
  "sequence as it was.",
  "quantifier": {"over": ["histories", "inputs", "fault_sequences"],
    "text": "every history of operations, refused and failing requests "
    "included, on sequences of scalar fields, vector fields and points"},
  "why_tests_cant": "Tests make single calls on sequences built in order; "
  "lost or exchanged times show after particular sequences of operations "
  "only, and refused requests are not followed by anything.",
  "anchors": {"files": ["IMTreatment/core/temporalfields.py",
                        "IMTreatment/core/temporalscalarfields.py",
                        "IMTreatment/core/temporalvectorfields.py",
                        "IMTreatment/core/temporalpoints.py",
                        "IMTreatment/core/fields.py"],
    "mechanism": [{"name": "add_field, remove_fields, add_pts, remove_pts, "
                   "crop, change_unit, scale, reduce/augment_temporal_"
                   "resolution, operators, setters of times", "where":
                   "IMTreatment/core/temporalfields.py"}],
    "state": [{"name": "times and fields / point_sets",
               "meaning": "parallel lists, same order",
               "where": "IMTreatment/core/temporalfields.py"}],
    "observe_at": ["times, fields, axes and units after each step"],
    "hook_needed": None},
  "technique": DST + "seeded histories with refused and failing requests and "
  "restarts, against an executable reference model (ordered list of times "
  "and fields treated alone)",
  "level": "exploration",
  "level_note": "Seeded sampling of histories of 8-20 steps.",
 },
 {
  "id": "C17",
  "title": "Text, matlab and picture exports are complete once they returned",
  "statement": "Once an export of a field, profile, points or critical "
  "points to text, matlab or picture files has returned, the files hold all "
  "of the data even if the process is killed at that very moment: reading "
  "them back gives the same axes, values, mask, positions (and units, for "
  "matlab). A storage error during an export or import is raised, never "
  "swallowed; the exported object is never altered.",
  "quantifier": {"over": ["crash_points", "fault_sequences", "inputs"],
    "text": "every object with at least one element, every failing or short "
    "I/O step, a kill right after the return"},
  "why_tests_cant": "Tests compare a few exports made without failure in a "
  "process that ends normally.",
  "anchors": {"files": [FO], "mechanism": [
      {"name": "export_to_ascii/matlab/picture(s), import_*_from_ascii, "
       "import_from_matlab, import_from_picture(s)", "where": FO}],
    "observe_at": ["files read by a later process"], "hook_needed": None},
  "technique": DST + "failing and short I/O steps inside exports and a kill "
  "right after them, read back by another process life",
  "level": "fault_enumeration",
  "level_note": "Seeded sampling; text exports over an existing file are not "
  "required to be atomic.",
 },
 {
  "id": "C18",
  "title": "An answer depends on the object alone, not on what came before",
  "statement": "Two objects with the same public attributes (axes, values, "
  "mask, units, times, fields ...) give the same answers to every question "
  "and the same results of every treatment, whatever was asked before of "
  "each one or of others, whichever way it came to be (built, altered in "
  "place, copied, saved and loaded again by another process), whatever the "
  "caller did to earlier answers, whichever state the random generators are "
  "in, and even if an earlier question was interrupted at any line: no "
  "stale cached result, no leftover of an earlier call.",
  "quantifier": {"over": ["histories", "fault_sequences", "inputs"],
    "text": "every object kind, every history of questions (interrupted ones "
    "included), alterations, writes into answers, copies and restarts, every "
    "later question"},
  "why_tests_cant": "Tests ask fresh objects; a stale cache or a leftover "
  "shows only after particular pairs of question and alteration.",
  "anchors": {"files": ["IMTreatment/core/field.py",
                        "IMTreatment/core/scalarfield.py",
                        "IMTreatment/core/vectorfield.py",
                        "IMTreatment/core/temporalfields.py",
                        "IMTreatment/core/profile.py",
                        VOD, "IMTreatment/pod/pod.py"],
    "mechanism": [{"name": "cached attributes (dx, dy, coherences, "
                   "trajectories), default arguments, random generators",
                   "where": "IMTreatment"}],
    "observe_at": ["answers, compared with the ones of a new object"],
    "hook_needed": None},
  "technique": DST + "seeded histories of questions, alterations, interrupts "
  "and restarts; oracle: a new object rebuilt from the public attributes",
  "level": "exploration",
  "level_note": "Seeded sampling over the table of operations; critical "
  "points without computed trajectories.",
 },
 {
  "id": "C19",
  "title": "Model flows answer for the components they hold now",
  "statement": "A vortex system gives, for every question (velocity at a "
  "point, contributions of each vortex and custom field, vector fields, "
  "evolution in time, velocity maps), the superposition of the vortices, "
  "custom fields and wall images it holds now, and a potential flow gives "
  "the solution for its present free stream and solid objects, whatever was "
  "added, removed, moved, turned, refined or asked before, even if an "
  "earlier question was interrupted at any line or if several threads ask "
  "at once. A copy goes its own way, asking alters nothing, and the vortices, "
  "walls, fields and coordinates given by the caller are never altered.",
  "quantifier": {"over": ["histories", "schedules", "fault_sequences"],
    "text": "every history of additions, removals, moves, time steps, copies "
    "and questions, every line at which a question is interrupted, every "
    "schedule of threads asking the same system"},
  "why_tests_cant": "Tests build one system and ask it once; images and "
  "source strengths are cached and go stale only after particular "
  "sequences of alteration, interruption and question.",
  "anchors": {"files": ["IMTreatment/vortex_creation/vortex_creation.py",
                        "IMTreatment/potential_flow/potential_flow.py"],
    "mechanism": [{"name": "VortexSystem images (to_refresh, im_vortex, ids)",
                   "where": "IMTreatment/vortex_creation/vortex_creation.py"},
                  {"name": "System source strengths (sigma_to_refresh)",
                   "where": "IMTreatment/potential_flow/potential_flow.py"}],
    "state": [{"name": "im_vortex, panel.sigma, panel.vt",
               "where": "IMTreatment/vortex_creation/vortex_creation.py",
               "meaning": "derived from the components"}],
    "observe_at": ["answers, compared with a new system and with an "
                   "independent superposition"],
    "hook_needed": None},
  "technique": DST + "seeded histories of alterations, interrupted questions "
  "and thread switches; oracles: a new system with the same components, an "
  "independent superposition (method of images, closed-form panels)",
  "level": "exploration",
  "level_note": "Seeded sampling; at most 4 vortices, 3 walls, 4 solid "
  "objects; sources and sinks (which the code ignores) are not modelled.",
 },
]


def _na(pid, title, statement, files, reason):
    return {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": ["inputs"], "text": "every input"},
        "why_tests_cant": "Tests check a few inputs against stored results.",
        "anchors": {"files": files, "mechanism": [
            {"name": title, "where": files[0]}],
            "observe_at": ["returned values"], "hook_needed": None},
        "reason": reason}


PURE = ("A pure function of its input: no schedule, clock, fault, I/O or "
        "history takes part in it, so deterministic simulation has nothing to "
        "vary; only input generation would remain. (That these functions "
        "leave their operands alone, answer the same again and run in "
        "several threads is decided by C12, C13, C14 and C18.)")

NOT_APPLICABLE = [
    _na("N01", "Units follow the laws of dimensions",
        "Sums of quantities in compatible units are right whatever the "
        "units, incompatible ones are refused, products and powers have the "
        "right dimension, changing units back and forth changes nothing.",
        ["IMTreatment/utils/units.py", "IMTreatment/core/field.py"], PURE),
    _na("N02", "Geometric treatments are consistent and invertible",
        "Rotating, scaling, moving the origin, mirroring and cropping act on "
        "axes, values, masks and components alike, and undo each other.",
        ["IMTreatment/core/scalarfield.py",
         "IMTreatment/core/vectorfield.py"], PURE),
    _na("N03", "A modal decomposition reconstructs the fields it came from",
        "Reconstructing with all modes gives the decomposed fields; modes "
        "are orthonormal and sorted by energy.",
        ["IMTreatment/pod/pod.py"], PURE),
    _na("N04", "Vortex criteria and derivatives match the flow",
        "Derivatives of linear fields are exact; criteria follow shifts, "
        "scalings and rotations of the flow; critical points of known flows "
        "are found where they are, with the right type.",
        ["IMTreatment/vortex_criterions/vortex_criterions.py",
         "IMTreatment/vortex_detection/vortex_detection.py",
         "IMTreatment/field_treatment/field_treatment.py"], PURE),
    _na("N05", "Filling, smoothing and interpolating respect known values",
        "Filling changes masked values only, interpolation is exact on the "
        "nodes and between the neighbouring values.",
        ["IMTreatment/core/scalarfield.py", "IMTreatment/utils/types.py"],
        PURE),
    _na("N06", "Analytical flows match their formulas",
        "Potential flows, vortex models and boundary layer parameters "
        "satisfy their defining equations.",
        ["IMTreatment/potential_flow/potential_flow.py",
         "IMTreatment/vortex_creation/vortex_creation.py",
         "IMTreatment/boundary_layer/boundary_layer.py"], PURE),
    _na("N07", "The task helper MultiThreading runs each task exactly once",
        "Every task given to the helper runs exactly once and its result or "
        "error reaches the caller.",
        ["IMTreatment/utils/multithreading.py"],
        "The class declares itself 'not functional yet' and cannot complete "
        "any task at this commit, so there is no behaviour to simulate."),
]
