NOTES = ("Pure-python simulator in /verif/dsim; the simulated processes import desimeter from /repo/py "
         "at check time, no build step and no hooks in /repo are needed. check.py P --survey lists "
         "every violation signature, replay.py FILE replays a recorded violation.")


def Q(over, text):
    return {"over": over, "text": text}


def A(files, mech, state=(), observe=()):
    return {"files": list(files),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe)}


PROPS = [
    dict(
        id="P01",
        title="process_fvc returns the spots of that image, or reports failure",
        statement=(
            "Over any history of process_fvc calls (in-process or through a subprocess, with or without overwrite, "
            "sequential or concurrent), image replacements, process deaths and disk errors, a call that returns a table "
            "returns the complete spot table of the image at that path - every spot of the image once, with its true pinhole or "
            "positioner identity, pixel and focal plane position - as it was when that path was last processed, or as it is "
            "now with overwrite. A call that cannot do that reports a failure (None or an error) and never a partial "
            "table, a stale one or the table of another image. Once faults stop, the next call on any image succeeds."),
        quantifier=Q(["histories", "schedules", "crash_points", "fault_sequences"],
                     "all call histories over several directories and image names, all interleavings of concurrent calls, "
                     "process death or I/O error at any file operation"),
        why_tests_cant=("The tests call fvc_proc once on good input; none calls process_fvc, none kills a process, fails a "
                        "write, or runs two calls at once, and the result depends on what earlier calls left in /tmp."),
        anchors=A(["py/desimeter/processfvc.py", "bin/desi_fvc_proc"],
                  [("private directory and atomic rename of the cached table", "processfvc.process_fvc"),
                   ("cache name from the image path", "processfvc.get_outfilename"),
                   ("error code of the subprocess", "processfvc.process_fvc")],
                  [("/tmp/<image>-<id>.csv", "table of spots reused by later calls", "processfvc.get_outfilename")],
                  ["return value of process_fvc", "bin/desi_fvc_proc exit status"]),
        technique="seeded call histories, interleavings and file-system faults against the true spot list",
        level_note=("Sampled executions of the real process_fvc, desi_fvc_proc and FVC pipeline on a simulated file system; "
                    "trusts the frozen reference optics that draw the images and the atomicity of rename."),
    ),
    dict(
        id="P11",
        title="FVC pipeline: right identity and position while hardware fails",
        statement=(
            "Through any night of exposures with accumulating hardware faults (dead fibres, dead pinholes or whole "
            "fiducials, stray spots, camera drift, a different camera), desi_fvc_proc on an image or a spot list labels every "
            "spot of a live positioner and of a complete fiducial with its true location, petal, device and pinhole "
            "identity, labels no stray spot, and gives every spot its focal plane position, metrology and expected position "
            "(and RA, DEC when given a field model) in agreement with the optics. The written transform reproduces these positions, "
            "the result never depends on exposures processed earlier by the same process, and an exposure with fewer than "
            "three usable fiducials is reported as a failure rather than mislabelled."),
        quantifier=Q(["histories", "fault_sequences", "inputs", "configurations"],
                     "all sequences of exposures and of hardware faults, fibre positions, camera motions and option combinations"),
        why_tests_cant=("The tests process one recorded spot list with nominal hardware; they sample neither fault combinations, "
                        "nor sequences of exposures in one process, nor other cameras, options or fibre positions."),
        anchors=A(["py/desimeter/processfvc.py", "py/desimeter/findfiducials.py", "py/desimeter/detectspots.py",
                   "py/desimeter/transform/fvc2fp.py", "py/desimeter/transform/zhaoburge.py", "py/desimeter/match.py",
                   "py/desimeter/simplecorr.py", "bin/desi_fvc_proc"],
                  [("fiducial pattern match", "findfiducials.findfiducials"),
                   ("fit of scale, rotation, offset, distortions", "transform/fvc2fp.FVC2FP.fit"),
                   ("match of fibres to expected positions", "processfvc.fvc_proc"),
                   ("three-fiducial floor", "processfvc.fvc_proc")],
                  [("cached pinhole metrology", "kept between calls in a process", "findfiducials")],
                  ["output CSV", "output transform JSON", "exit status"]),
        technique="simulated nights of exposures with accumulating hardware faults against the true focal plane",
        level_note=("Sampled nights; truth from a frozen copy of the optics in dref/. Assumes fibres within the documented "
                    "match radius and no stray light within it; pinhole patterns with two pinholes at the same XPIX may stay unmatched."),
    ),
]

PROPS.append(dict(
    id="P03",
    title="spotmatch returns the matches of its own call, or fails",
    statement=(
        "Whatever other spotmatch calls run at the same time in other threads or processes, whatever interrupted calls left on "
        "disk, and however match_positions or the disk fails, a spotmatch call either raises an error or returns exactly "
        "the rows that match_positions computed for its own spots, expected positions, transform and match radius: same "
        "order, location, pixel position, flag, error and type, described by the metrology of that location, with PINHOLE_ID 0 for "
        "positioners, 99 for fiducial centres and distinct numbers from 10 for the pinholes of a fiducial. match_positions "
        "receives the true pinhole references, fiducial patterns, device centres, targets and spots in its file formats, an old "
        "version without -positioner_reach is run again without it, and fvc_proc with --use-spotmatch gives each fibre its own "
        "location and focal plane position."),
    quantifier=Q(["histories", "schedules", "crash_points", "fault_sequences", "inputs"],
                 "all interleavings of concurrent calls, program failures, disk errors and process deaths at any file operation, "
                 "over spot lists, expected positions, transforms and match radii"),
    why_tests_cant=("The only test of spotmatch is skipped because match_positions is not installed; no test runs two calls, kills "
                    "the program or fills the disk."),
    anchors=A(["py/desimeter/spotmatch.py", "py/desimeter/processfvc.py"],
              [("private temporary directory", "spotmatch.spotmatch"),
               ("exit status check and retry without -positioner_reach", "spotmatch.spotmatch"),
               ("input files", "spotmatch._write_spotmatch_*"),
               ("dummy pinhole ids", "spotmatch.spotmatch")],
              [("temporary input and output files", "exchange with match_positions", "spotmatch.spotmatch")],
              ["returned table", "files and options given to match_positions", "fvc_proc output"]),
    technique="concurrent and faulty runs of a simulated external matcher against an in-memory match",
    level_note=("Sampled executions; match_positions itself is a stand-in that applies a fixed nearest-neighbour rule to the "
                "files it is given. Assumes that it exits with an error when its own output is incomplete."),
))

PROPS.append(dict(
    id="P05",
    title="Coordinate transforms are right whatever the history, threads and failed reads",
    statement=(
        "Each call of a coordinate transform - sky, tangent plane, focal plane, FVC and guide-camera pixels, petal, flat, "
        "positioner local and (theta, phi), Q/S and nominal R/S/Z/N, fiberassign and PlateMaker coordinates, and the "
        "saved transform objects - returns the documented transform of its arguments with the calibration files of the "
        "package: for any pointing, date, hour angle, hexapod and ADC angles, petal and option, as a float or an array, "
        "and each point as if alone (except for the fiberassign functions, whose field rotation is measured over all points). "
        "The answer never depends on earlier calls of the process, on other transform objects, on what callers do with earlier "
        "results, or on other threads making their first calls at the same time. A failed read of a calibration file gives an error, "
        "never a wrong value, and does not disturb later calls. Arguments are never modified."),
    quantifier=Q(["inputs", "histories", "schedules", "fault_sequences"],
                 "all inputs over the sky, the focal plane and the instrument angles, all call orders, interleavings of first "
                 "calls and failures of calibration reads"),
    why_tests_cant=("Calibrations are loaded lazily into module globals: the answer may depend on what ran before, on two first calls "
                    "racing, or on a failed load; tests make single calls on a few points with good files."),
    anchors=A(["py/desimeter/transform/*.py", "py/desimeter/transform/tan2fp/*.py", "py/desimeter/fiberassign.py",
               "py/desimeter/time.py", "py/desimeter/trig.py"],
              [("lazy load of GFA metrology fits", "transform/gfa2fp"),
               ("lazy load of petal alignments", "transform/ptl2fp.get_petal_alignment_data"),
               ("lazy load of ray-trace and Echo22 fits", "transform/tan2fp"),
               ("precession, aberration, refraction, polar alignment", "transform/radec2tan"),
               ("pointing iteration and field rotation", "fiberassign")],
              [("_gfa_transforms, petal_alignment_dict, raytracefit_instance, _r2t_coeff", "cached calibration", "module globals")],
              ["return values", "caller's arrays"]),
    technique="seeded call histories, racing first calls and calibration read faults against a frozen reference",
    level_note=("Sampled executions. The oracle is a frozen copy of the transforms and calibration files, so an intended "
                "recalibration needs a new copy; the use_astropy options (network tables) are not exercised."),
))

PROPS.append(dict(
    id="P06",
    title="Log messages reach the console and every requested log file exactly once",
    statement=(
        "Whatever calls of get_logger came before in the process (modules call it at import), and from whichever threads, each "
        "message sent to a logger of severity at or above its level is printed exactly once on the console and written exactly "
        "once to every file path requested so far for that level in the process, before the call returns; messages below the level, "
        "and files requested for other levels only, get nothing. Messages keep their severity, origin and the order within a thread, "
        "files are appended to and never truncated, and requested time stamps are the current time. A log file which cannot be opened is "
        "an error of get_logger and leaves the other loggers working; a log file which cannot be written never disturbs the caller, "
        "the console or the other messages. A killed process loses none of the messages already logged."),
    quantifier=Q(["histories", "schedules", "crash_points", "fault_sequences"],
                 "all call orders and interleavings of get_logger and messages of several levels, paths, threads and processes, "
                 "with log file errors and process deaths at any file operation"),
    why_tests_cant="No test covers the logger; duplicates and lost files depend on which module or thread asked first.",
    anchors=A(["py/desimeter/log.py", "bin/prepare_posparams_for_instr", "bin/analyze_pos_performance"],
              [("one console handler per level", "log.get_logger"),
               ("log file of a logger which already exists", "log.get_logger"),
               ("flush of each message", "python logging")],
              [("_loggers", "cached loggers of the process", "log module")],
              ["console", "log files"]),
    technique="seeded histories of loggers and messages in racing threads with log file faults",
    level_note="Sampled executions. Assumes that the console can be written and that appended data survive the process.",
))

PROPS.append(dict(
    id="P07",
    title="A positioner's calibration does not depend on what else is fit",
    statement=(
        "For every batch of positioner tables, number of worker processes, order of the tasks and history of the process, the "
        "paramfits table which fit_posparams or run_best_fits writes for a positioner is the same, column by column and up to "
        "the analysis date, as that of a fit of this positioner alone in a new process with the same options. Previous fits - "
        "of positioners with more sequences, failed or flagged ones, or direct calls of fit_params - leave no trace, every "
        "positioner of a batch with at least ten points per fit is fit, and the input files are never modified."),
    quantifier=Q(["histories", "schedules", "inputs", "configurations"],
                 "all batches of positioners, worker counts, assignments of tasks to workers, orders of completion and fits "
                 "done earlier in the same process"),
    why_tests_cant=("The tests fit one positioner once; they run no batch, no process pool, and no two positioners with different "
                    "sequences in the same process, where module level state of the fitter leaks from one to the next."),
    anchors=A(["bin/fit_posparams", "py/desimeter/posparams/fithandler.py", "py/desimeter/posparams/fitter.py"],
              [("pool of workers, each with its own imported modules", "bin/fit_posparams"),
               ("parameter bounds and keys at module level", "posparams.fitter.fit_params"),
               ("columns of the output table", "posparams.fithandler.run_best_fits")],
              [("default bounds, nominals and keys", "module dictionaries used by every fit", "posparams.fitter")],
              ["<posid>_paramfits.csv"]),
    technique="seeded batches, pool schedules and process histories against a fit alone in a new process",
    level_note=("Sampled batches of simulated positioners; the process pool is a seeded stand-in which gives each worker its own "
                "modules and any assignment and order. The reference is the code itself run alone (P20 judges the values)."),
))

PROPS.append(dict(
    id="P08",
    title="fit_posparams: no bad positioner or disk error loses a result silently",
    statement=(
        "In any batch of good positioners, positioners with unusable tables (too few points, wrong identifiers, header only, "
        "empty, missing columns, garbage, truncated, not-a-number) and stuck ones, with disk errors (disk full, I/O errors, "
        "no descriptors, permissions) on any file, fit_posparams always ends. A good positioner whose files were not hit gets the same "
        "complete paramfits table as alone. An unusable or stuck one never gets parameters with FLAGS zero: it gets a table with "
        "the flag of its defect (too few points, invalid table, failed fit with stuck theta) or is named in the messages. When any "
        "positioner has no complete table the exit status is not zero and the messages name it; when all have theirs it is zero. "
        "Once faults stop, running it again completes every good positioner."),
    quantifier=Q(["inputs", "fault_sequences", "schedules"],
                 "all mixes of good and defective tables, disk faults at any file operation, worker counts and task orders"),
    why_tests_cant=("The tests never run fit_posparams: no batch, no defective table, no disk error, no look at the exit status."),
    anchors=A(["bin/fit_posparams", "py/desimeter/posparams/fithandler.py", "py/desimeter/posparams/flags.py"],
              [("errors of one positioner kept from the others", "bin/fit_posparams"),
               ("flags of tables which cannot be fit", "posparams.fithandler.run_best_fits"),
               ("meaning of the flag bits", "posparams.flags")],
              [], ["<posid>_paramfits.csv", "exit status", "messages"]),
    technique="seeded batches of good and defective positioner tables with disk faults against the fits alone",
    level_note=("Sampled batches, defects and faults. Assumes worker processes are not killed by the system: "
                "multiprocessing.Pool then waits for ever, which the code cannot prevent."),
))

PROPS.append(dict(
    id="P20",
    title="fit_posparams finds the true kinematics of a positioner, or flags it",
    statement=(
        "For any history of a positioner - rehomes, lost steps between sequences, gear calibrations, measurement noise, wrong spot "
        "matches, disabled periods, records repeated without a move, rows in any order - run_best_fits gives parameters (arm lengths, angular offsets, "
        "centre, per-sequence drift EPSILON, dynamic scales whatever the gear calibration in place at each move) that agree with the true kinematics within the noise when whole "
        "calibration arcs are fit, with OFFSET_T within 180 degrees and errors not negative, and FIT_ERROR equal to the residual "
        "of those parameters. Outlier rejection leaves wrong matches out of the fit and of NUM_POINTS_IN_FIT. A stuck "
        "motor or fewer than ten points gives the flags of that and no parameters. Analysis windows are in time order, lie within the data, have the requested number of points, cover "
        "all points of a single period, and NUM_POINTS counts the points of the window; rows excluded by control flags, missing spots or the log note selection "
        "are never used."),
    quantifier=Q(["histories", "inputs", "fault_sequences", "configurations"],
                 "all sequences of moves, rehomes, drifts, stuck motors and wrong matches of simulated positioners, window and selection options"),
    why_tests_cant=("One test fits clean synthetic points and checks no more than a few parameters; none covers sequences without rehome, outliers, stuck "
                    "motors, windows, selections or rows out of order."),
    anchors=A(["py/desimeter/posparams/fithandler.py", "py/desimeter/posparams/fitter.py", "py/desimeter/posparams/flags.py",
               "py/desimeter/transform/pos2ptl.py", "py/desimeter/transform/ptl2fp.py", "py/desimeter/circles.py"],
              [("selection, sequences and windows", "posparams.fithandler.run_best_fits"),
               ("static and dynamic fits, outlier rejection", "posparams.fitter.fit_params"),
               ("arm kinematics", "transform.pos2ptl.int2loc")],
              [], ["<posid>_paramfits.csv"]),
    technique="simulated positioner histories with faults against their true kinematics",
    level_note=("Sampled histories. Truth from the frozen kinematics in dref/. Parameters are judged for windows of whole "
                "sequences with an arc at fixed phi, arms not folded, theta scale between 0.8 and 1, at most one wrong match in a fit."),
))

PROPS.append(dict(
    id="P12",
    title="Guide stars give a field model that reproduces the sky, or no model",
    statement=(
        "For any series of guide exposures - pointing errors, field rotation up to a degree, hexapod and ADC settings, scale errors, proper motions "
        "(some unknown), pointings near RA 0, wrong star matches, missing cameras, catalogues in csv or FITS - the model fit by "
        "desi_fit_guide_star_coordinates or FieldModel.fit_tancorr maps the guide stars and the whole focal plane to the true sky within the "
        "noise, records the exposure, time, hexapod, ADC, options, number of stars used (no wrong match), their rms and the true field rotation, and read "
        "back from its JSON it is the same model, with radec2fp the inverse of fp2radec. desi_predict_fieldrot prints the model rotation and its rate. Fewer than three "
        "usable stars, no match, a missing column, header or date gives an error and no model. Disk errors and deaths give an error, never a wrong or partial "
        "model with success; inputs are not changed, and the next run succeeds."),
    quantifier=Q(["inputs", "histories", "fault_sequences", "crash_points"],
                 "all pointings, star sets, camera losses, wrong matches and settings, disk faults or death at any file operation, histories of calls in a process"),
    why_tests_cant=("The tests fit one recorded catalogue and compare with itself; none has a true sky, wrong matches, lost cameras, few stars, "
                    "unknown proper motions, rotated fields or a disk error."),
    anchors=A(["py/desimeter/fieldmodel.py", "bin/desi_fit_guide_star_coordinates", "bin/desi_predict_fieldrot", "py/desimeter/transform/tancorr.py",
               "py/desimeter/transform/radec2tan.py", "py/desimeter/transform/tan2fp.py", "py/desimeter/transform/gfa2fp.py", "py/desimeter/time.py"],
              [("selection of the stars, fit and field rotation", "fieldmodel.FieldModel.fit_tancorr"),
               ("catalogue columns and proper motions", "fieldmodel.FieldModel.read_guide_stars_catalog"),
               ("sky to tangent plane corrections", "transform.radec2tan.radec2tan")],
              [("field model json", "everything a later process needs to map the field", "fieldmodel.FieldModel.tojson")],
              ["field model JSON", "exit status", "printed rotation"]),
    technique="simulated nights of guide exposures with hardware and disk faults against the true sky",
    level_note=("Sampled nights. Truth from the frozen optics in dref/, fields below Dec 80 within 60 degrees of the meridian, pointing errors below six arc minutes, "
                "stars in at least two cameras; tolerance grows with the noise and the lever arm of the cameras."),
))

PROPS.append(dict(
    id="P18",
    title="merge_posparams keeps every row of every fit with its location, or fails",
    statement=(
        "merge_posparams of any set of paramfits files (good fits, several windows, failed fits without location, header only, different columns, numeric or text "
        "move columns, a file given twice, names with spaces, an already merged table) writes one table with every row of every "
        "file in the order given, every value unchanged (0 in the move columns becomes none) and nothing invented. Failed fits get "
        "the LOCATION, DEVICE_LOC, PETAL_LOC and PETAL_ID of their positioner from the metrology, -1 if it has none, unless --no-metrology. A location "
        "which differs from the metrology is an error with nothing written, unless --no-check. With disk errors or deaths the exit status is zero "
        "only if the merged table is complete; inputs are not changed, and running it again succeeds."),
    quantifier=Q(["inputs", "configurations", "fault_sequences", "crash_points"],
                 "all sets and orders of paramfits files, options, disk faults or death at any file operation, merges of merges"),
    why_tests_cant="No test runs merge_posparams.",
    anchors=A(["bin/merge_posparams", "py/desimeter/io.py"],
              [("stack of tables and metrology match", "bin/merge_posparams")],
              [], ["merged csv", "exit status"]),
    technique="seeded sets of paramfits files with disk faults and deaths against a row by row model",
    level_note="Sampled sets of files; the expected rows come from an executable model of a few lines and the frozen metrology.",
))

PROPS.append(dict(
    id="P19",
    title="average_coordinates gives the mean position of each spot and keeps the rest",
    statement=(
        "For any series of exposures of the same spots, in any row order, with small camera motions (shift, rotation, scale), lost spots and false spots, average_coordinates "
        "(script and function, any pair of coordinate columns, one exposure or many, an exposure twice) gives each spot seen in all exposures the mean of its positions after a "
        "linear transform of each exposure to the first, leaves the other rows of the first table and all other columns as they are, in "
        "their order, and does not change the tables of the caller or the files. With disk errors or deaths the script ends with status zero only if its "
        "output is complete."),
    quantifier=Q(["inputs", "fault_sequences", "crash_points"],
                 "all series of exposures with drift, noise, lost and false spots, orders and repetitions, disk faults at any file operation"),
    why_tests_cant="No test calls average_coordinates.",
    anchors=A(["py/desimeter/averagecoord.py", "bin/average_coordinates", "py/desimeter/match.py"],
              [("spots matched, transformed and averaged", "averagecoord.average_coordinates")],
              [], ["averaged table", "exit status"]),
    technique="simulated exposure series with lost and false spots and disk faults against an independent mean",
    level_note="Sampled series of spots at least 30 pixels apart moving by less than the 5 pixel match radius of the code.",
))

PROPS.append(dict(
    id="P17",
    title="Exports of the telemetry database hold the selected rows, or the command fails",
    statement=(
        "get_posmoves, get_posparams, get_poscoords, get_posmoves_with_fvc_data, get_posmoves_with_fvc_data_using_dates and load_petal_alignments_from_db write, with status zero, "
        "every row of the database selected by their options (petals, positioners, exposures, iterations, dates, movers, latest, tp-updates, enabled history) and no other, in their "
        "order, with unchanged values, the commas of notes replaced, and the derived columns of each row (petal location, rehome flag, calibration in force at its own time, expected or measured "
        "coordinates, matched FVC spot) right for that row. No selected positioner is missing, overwritten or mixed with another, with any number of petals, also while other clients commit rows. "
        "A lost database, a process death or a disk error gives a non-zero status, and running the command again once they stop gives the complete export."),
    quantifier=Q(["inputs", "configurations", "histories", "fault_sequences", "crash_points"],
                 "all contents of the database and option combinations, commits of other clients between statements, connection failures at any statement, disk faults at any operation"),
    why_tests_cant="The commands need a database server: no test runs any of them.",
    anchors=A(["bin/get_posmoves", "bin/get_posparams", "bin/get_poscoords", "bin/get_posmoves_with_fvc_data", "bin/get_posmoves_with_fvc_data_using_dates",
               "bin/load_petal_alignments_from_db", "py/desimeter/dbutil.py", "py/desimeter/util.py"],
              [("rows of a petal and positioner", "dbutil.dbquery and the queries of the commands"),
               ("calibration in force at a time", "loops over calibrations in the commands"),
               ("petal numbers to locations", "dbutil.get_petal_loc")],
              [("posmovedb tables", "moves and calibrations of the positioners, grown by other clients", "the database"),
               ("tables of spots in --fvc-data-dir", "reused by later runs", "bin/get_posmoves_with_fvc_data")], ["exported files", "exit status"]),
    technique="simulated database with committing clients, lost connections and disk faults against the rows selected by an independent reference",
    level_note=("Real commands against an in-memory SQL engine in place of psycopg2 and the server, which answers the queries these commands send; each statement sees the rows "
                "committed before it; one row per positioner and time.")))


PROPS.append(dict(
    id="P14",
    title="Turbulence correction removes the correlated displacement and nothing else",
    statement=(
        "For any series of exposures through turbulence (displacements of 4 to 20 microns correlated over 25 to 100 mm, independent errors of 1 to 4 microns, 40 or more fibres), turbulence.correct, "
        "correct_using_stationary and solve_files (both modes, excludeself or not) find the displacement field about as well as the best linear estimate with the true covariance, and correct_with_pol and "
        "desi_fvc_proc --turbulence-correction[-with-pol] reduce it. correct and correct_with_pol leave a displacement of a single fibre in place. Results of correct do not depend on the order of rows, "
        "and those of any call not on earlier calls; arguments are not modified. Broken and non finite stationary fibres are not used and flagged in the returned mask, with any scale_covar and clip_resid. solve_files keeps every "
        "measured row and gives NaN to those without expected position; XNEW, YNEW are the positions minus DXTURB, DYTURB. desi_fvc_proc changes only X_FP, Y_FP of positioners matched to an expected "
        "position, not of fiducials. Disk errors are reported."),
    quantifier=Q(["inputs", "configurations", "fault_sequences", "histories"],
                 "all fields, fibre patterns, missing, broken and unmeasured fibres, options, series of calls, disk faults at any operation"),
    why_tests_cant="The only test of turbulence corrects one field and checks that the scatter is reduced.",
    anchors=A(["py/desimeter/turbulence.py", "py/desimeter/processfvc.py", "bin/desi_fvc_proc"],
              [("gaussian process without the fibre itself", "turbulence.correct, solve_independent, solve_gradwavefront"),
               ("polynomial of neighbours", "turbulence.correct_with_pol"),
               ("iterative rejection of broken fibres", "turbulence.correct_using_stationary")],
              [], ["corrected positions", "mask of good fibres", "turbulence table", "csv of desi_fvc_proc"]),
    technique="seeded turbulent exposures with broken, missing and unmeasured fibres and disk faults against the optimal estimate",
    level_note="Sampled gaussian fields; limits on the error are 1.45 to 1.6 times that of the estimate with true covariance (3 times plus part of the field for the polynomial)."))


PROPS.append(dict(
    id="P16",
    title="Transforms saved as JSON give the same answers after a restart, or are refused",
    statement=(
        "For any history of processes fitting, refitting, saving, overwriting and loading transforms (SimpleCorr, TanCorr, FieldModel, FVC2FP, DM2PM, TAN2FP_RayTraceFit): the fit reproduces exact data and "
        "records its statistics (fixed_scale, fixed_rotation kept); a file saved with success gives, in any later process, exactly the answers, forward and inverse, and the JSON of the object that was saved, and "
        "older formats and files of other releases give the answers they always gave. A transform in memory never changes because of others fit, saved or loaded. The inverse undoes the transform. "
        "Truncated files, other classes, unknown versions and files without a required parameter are refused. With disk errors or deaths, saving "
        "fails or the file is complete; loading gives a transform saved there or fails, never defaults. fit_raytrace_tan2fp, by default on the shipped ray traces, writes a transform which reproduces the rays."),
    quantifier=Q(["inputs", "histories", "fault_sequences", "crash_points"],
                 "all transforms and data they are fit to, orders of saves and loads, formats, restarts, disk faults or death at any file operation"),
    why_tests_cant="The tests write and read one transform of three classes in one process, without faults, sharing or older formats.",
    anchors=A(["py/desimeter/fieldmodel.py", "py/desimeter/simplecorr.py", "py/desimeter/transform/fvc2fp.py", "py/desimeter/transform/dm2pm.py",
               "py/desimeter/transform/tan2fp/raytracefit.py", "py/desimeter/transform/zhaoburge.py", "bin/fit_raytrace_tan2fp"],
              [("parameters to and from JSON", "tojson and fromjson of the classes"), ("files", "read_jsonfile, write_jsonfile, read, write")],
              [("transform files", "everything a later process needs to apply the transform", "tojson")], ["answers of a transform", "JSON files", "errors"]),
    technique="simulated histories of processes saving and loading transforms with restarts and disk faults against frozen reference transforms",
    level_note="Sampled histories and data. Answers compared bit for bit with those before the restart and to 1e-9 with the reference in dref/."))


PROPS.append(dict(
    id="P13",
    title="FVC images: every spot of every frame once, where it is, or an error",
    statement=(
        "For any FVC image (numeric type, size, pedestal, noise level down to none, bias structure, bad pixels, spots anywhere in a pixel), detectspots and desi_fvc_proc give every gaussian spot that is bright enough, "
        "isolated (8 sigma) and off the border, once, with XPIX, YPIX within the noise, COUNTS, and XERR, YERR the true errors (never NaN), for the spot width requested, and nothing else except at bad pixels or the border, "
        "whatever the random state, array layout, other frames or threads of the process; the image given is not changed. "
        "desi_fvc_proc reads the frame selected (only HDU, --extname, the last, or each frame of --sequence to its own file, also with the match), subtracts the default bias, the --bias requested or none, applies its cuts on counts, "
        "and gives the same output when called again with the same arguments. A frame without spots, missing, refused by --min-spots or --max-spots, a truncated file and disk errors give a non-zero status, "
        "and no run with status zero lacks an output or has an incomplete one."),
    quantifier=Q(["inputs", "configurations", "histories", "schedules", "fault_sequences"],
                 "all images and layouts of FITS files, options, orders of calls in one or several processes and threads, random states, truncations, disk faults"),
    why_tests_cant="The tests detect the spots of a few synthetic images with one noise level; none uses a bias, a sequence, integer images, spots between pixels, truncated files or disk errors.",
    anchors=A(["py/desimeter/detectspots.py", "py/desimeter/processfvc.py", "bin/desi_fvc_proc"],
              [("peaks, centroid fit, duplicates", "detectspots.detectspots"), ("bias and frames", "processfvc.preproc, get_spots_list"),
               ("one output per frame", "processfvc.fvc_proc")],
              [], ["tables of spots", "exit status"]),
    technique="seeded series of simulated FVC images, histories of commands and calls, truncations and disk faults against the spots drawn",
    level_note=("Sampled images. Spots are gaussian with sigma 0.8 to 1.5 pixels, background noise is white, and spots fill less than an eighth of the image. A sequence file truncated between two frames may give the complete frames only.")))


PROPS.append(dict(
    id="P04",
    title="FVC transform calibration finds the true centres and transform, or fails",
    statement=(
        "For any series of exposures with positioners turning around fixed centres (any order of angles, at least half a turn), desi_fit_circles lists every matched device (LOCATION 0 and any PINHOLE_ID included) measured in "
        "at least six exposures, once: for a moving positioner the true centre of its circle on the curved focal surface within the noise, for a fiducial pinhole the median of its positions, with the metrology of that device. "
        "Exposures where a device is listed twice or has coordinates 0 do not count; unmatched spots, still positioners, circles smaller than 1 mm, devices with fewer measurements or over 3 mm from their metrology are not listed, and "
        "one such device does not change or lose the others. "
        "desi_fit_fvc2fp_using_theta_centers (from such tables) and desi_fit_fvc2fp_using_posparams (from OFFSET_X,Y, without flagged or badly fit rows) write the transform, with exactly the polynomials requested, which maps the true pixels of the devices to their "
        "metrology (default or --other-metrology) within the noise, despite a few devices with metrology wrong by 0.25 mm or more; a patch table is moved with it. Without polynomials 0, 1, 2, 27 or with disk errors or death they fail or their output is complete."),
    quantifier=Q(["inputs", "histories", "configurations", "fault_sequences"],
                 "all series of exposures with lost, double, unmatched and stuck spots, instruments, options, orders of commands, disk faults or death at any file operation"),
    why_tests_cant="The tests fit one noiseless circle with points in order; none runs the calibration scripts.",
    anchors=A(["bin/desi_fit_circles", "py/desimeter/circles.py", "bin/desi_fit_fvc2fp_using_theta_centers", "bin/desi_fit_fvc2fp_using_posparams",
               "py/desimeter/transform/zhaoburge.py", "py/desimeter/transform/fvc2fp.py", "py/desimeter/transform/xy2qs.py"],
              [("collection of the coordinates of each device", "bin/desi_fit_circles"), ("circle fit", "circles.fit_circle"),
               ("fit, rejection of outliers and refit", "the two fit scripts, zhaoburge.fit_scale_rotation_offset")],
              [], ["table of circles", "transform file", "exit status"]),
    technique="seeded simulations of turning positioners, the chain of calibration commands under disk faults, against the true centres and transform",
    level_note="Sampled instruments and series. The transform in place is right within 1.5 mm; centres are compared at 6 standard errors plus 1.5 micron, transforms at 8 plus 4 micron."))


PROPS.append(dict(
    id="P15",
    title="Spots are matched to positioners: as many as can be, ambiguities found",
    statement=(
        "For any set of spots and positioners (any order of rows, missing fibres, false, faint and pinhole spots, positioners with unknown, long or short arms), match_positioners assigns as many spots as any assignment can, each to at "
        "most one positioner which reaches it (LENGTH_R1 + LENGTH_R2, or the _STATIC values, plus the offset; the median of the others if unknown), and returns one entry per spot: its row of the metrology table, or -1 for "
        "unassigned, faint (countthresh) or pinhole spots; the score is the number assigned. With return_alternatives, every alternative is as good, and a spot has a different assignment in one of them if and only if its positioner "
        "could have another spot, or none, in an equally good assignment. The arguments are not changed. desi_print_ambigous_groups prints, for the petal requested, only possible pairs, each once, with N_POS and the elbow position (at the two arm "
        "lengths, from --calib or 3 mm): the one spot of each positioner whose assignment is unique, and several for each that is ambiguous. Unreadable files give a non-zero status."),
    quantifier=Q(["inputs", "configurations", "histories", "fault_sequences"],
                 "all patches of the focal plane and spots, row orders, arm tables, options, orders of calls, disk faults"),
    why_tests_cant="No test runs this code.",
    anchors=A(["py/desimeter/match_positioners.py", "bin/desi_print_ambigous_groups"],
              [("which spots are in reach", "match_positioners.match_positioners"), ("largest assignment", "solve_assignment"),
               ("alternatives and groups", "match_positioners, possible_assignments_dict, print_groupings")],
              [], ["assignment, score, alternatives", "printed table"]),
    technique="seeded simulated patches of positioners and spots in shuffled tables, script runs under disk faults, against an augmenting-path matching",
    level_note="Sampled patches of up to 80 positioners. No spot is closer than 2 micron to the limit of a reach."))


PROPS.append(dict(
    id="P02",
    title="Only calibrations passing all checks, as the operator decides, are sent",
    statement=(
        "For any table of fits (bad, incomplete or NaN values, flags, several rows per positioner, complete tables) and any session of prepare_posparams_for_instr with an operator who adjusts tolerances, repeats checks, hesitates or gives answers that are no "
        "answers, the table written has exactly the rows which have all required values, no flag, and number of outliers, FIT_ERROR_STATIC, static parameters (bounds), offsets from the nominal position (in the petal plane) and arm lengths within the tolerances "
        "last entered; of several such rows of a positioner the one selected, or none if skipped. Each row keeps all values of its fit, has the parameters without _STATIC and _DYNAMIC, and COMMIT_x is what the operator answered for x (always False for scales and ranges). "
        "With --set-enabling, confirmed by the operator, all rows are kept, DEVICE_CLASSIFIED_NONFUNCTIONAL is True exactly for those failing a check, the rationale names the checks failed, and nothing else of them is committed. A question without a valid answer is asked again; when "
        "the operator does not confirm, exits or is cut off, no table is written. The input and tables of earlier sessions are never changed. With disk errors or death the status is not zero or the table is complete."),
    quantifier=Q(["inputs", "schedules", "histories", "fault_sequences", "crash_points"],
                 "all tables of fits, sequences of operator answers, interruptions at any question, sessions in the same second or later, disk faults or death at any file operation"),
    why_tests_cant="No test runs this command; the answers of the operator form the history.",
    anchors=A(["bin/prepare_posparams_for_instr", "py/desimeter/posparams/movemask.py", "py/desimeter/posparams/fitter.py", "py/desimeter/io.py"],
              [("checks", "check_* functions, _eliminate_rows"), ("dialogue", "yesnohelp, Check.run_and_adjust, check_uniqueness"), ("what is committed", "the loop over commit_keys")],
              [("table for the instrument", "calibrations to be stored in the online database", "new_table.write")], ["table written", "questions", "exit status"]),
    technique="seeded simulated operator sessions with interruptions, clock and disk faults, against an independent model of the checks and decisions",
    level_note="Sampled tables of up to some 60 rows. Values are not within rounding of a tolerance. A row without DEVICE_LOC or FLAGS, an unknown DEVICE_LOC, or no row left may make the command fail instead."))


PROPS.append(dict(
    id="P09",
    title="Front illuminated images: the angle and the knee of each phi arm are right",
    statement=(
        "For any front illuminated image of phi arms in clear contrast (any data type, background, gain, sub-pixel positions, angles), detect_phi_arms gives each spot the ANGLE, within 3.5 degrees plus one step of the scan, of the direction from the fibre to the knee in pixel "
        "coordinates, modulo a turn; CCF is the normalised correlation of the outline with the edges of the image at that angle and the largest of the scan by steps of ang_step around the best of the scan by 5 degrees, for all smoothings; MCCF and RMSCCF are mean and rms of this fine scan; MIMAGE is the mean of the image in the stamp around the "
        "spot. The values of a spot do not depend on the number of processes, their schedule, the order of rows, or which other spots are measured; turning the image by 90 degrees turns the angles; gain and bias of the image only change MIMAGE. The first two-dimensional image of the file is used; without one, or "
        "if a file cannot be read, or a process of the pool dies, no complete result is returned. analyze_bright_image writes one row per arm, with the identity and metrology of the positioner the arm belongs to, "
        "X_FP, PTL, Q and S of the fibre, and the knee 3 mm from the fibre in direction ANGLE, for any number of processes, back illuminated image or table; with --phi-arm-angle-table the angles of that table are used as they are. With disk errors the status is not zero or the table is complete."),
    quantifier=Q(["inputs", "configurations", "schedules", "histories", "fault_sequences"],
                 "all images of separated arms, scan steps, numbers of processes, schedules and deaths of workers, row orders and subsets, disk faults"),
    why_tests_cant="No test runs this code; the pool of processes makes its order vary.",
    anchors=A(["py/desimeter/brightimage.py", "bin/analyze_bright_image", "py/desimeter/match.py"],
              [("angle of an arm", "brightimage.detect_phi_arm"), ("pool of processes, image selection", "brightimage.detect_phi_arms"), ("knees and identity", "analyze_bright_image, match_same_system")],
              [("results of the pool", "collected by index", "detect_phi_arms")], ["ANGLE, CCF, MCCF, RMSCCF, MIMAGE", "output table", "exit status"]),
    technique="seeded simulated arms, images and process pools with worker deaths and disk faults, against the drawn angles and an independent scan",
    level_note="Arms are drawn from the outline template itself, in contrast, apart from each other and from the border. Sampled images."))


PROPS.append(dict(
    id="P10",
    title="Positioners moved between two series of exposures are found, and only those",
    statement=(
        "For any two series of FVC exposures (tables or images, spots in any order, the camera moving between exposures, measurement noise), detect_and_match_moving_positioners lists, once, exactly the positioners requested of which the fibre is seen before and after, moved by more than --min-move-mm and less than --max-move-mm after the best "
        "affine correction of the camera, and is then further than --min-dist-from-center-mm from and within --max-match-radius-mm of the centre of the positioner; whatever else is in the images: fibres which are dark before or after, stray spots, stuck positioners, pinholes, spots missing in one exposure of a series, unknown names among those requested. "
        "Each has the identity and metrology of the positioner, the average position after the move in pixels of the first exposure after the moves, and X_FP, PTL, Q and S for it. If there is none, nothing is written. "
        "The input files are not changed. With disk errors the status is not zero or the table is complete."),
    quantifier=Q(["inputs", "configurations", "fault_sequences", "crash_points"],
                 "all moves of a focal plane, series of exposures, cameras, orders of spots, dark fibres and stray spots apart from each other, options, disk faults and death of the process"),
    why_tests_cant="No test runs this command.",
    anchors=A(["bin/detect_and_match_moving_positioners", "py/desimeter/averagecoord.py", "py/desimeter/match.py", "py/desimeter/simplecorr.py"],
              [("moves between matched spots", "detect_and_match_moving_positioners"), ("average of a series", "averagecoord.average_coordinates"), ("pairs of spots", "match.match_same_system")],
              [], ["output table", "exit status"]),
    technique="seeded simulated moves, cameras and series of exposures under disk faults, against the moves made",
    level_note="Few of the spots move, such that the camera is well determined; no move is within 12 micron of a limit."))
