"""The properties, in one place (gen.py turns this into properties.jsonl and MANIFEST.json)."""


def P(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": list(observe), "hook_needed": None},
            "level_note": note}


PROPS = [
    P("P01", "Parsing keeps every sensor reading once, with its value and UTC time, in order",
      "After a successful parse the navigation file holds exactly one record for every intact reading in the raw logs "
      "and every stereo image pair, with the logged value (after the configured rotations, sign conventions, "
      "uncertainty models and tide correction) and the UTC time given by the logged time, the sensor's time zone and "
      "its time offset, plus the origin, all in time order. The result does not depend on how the parallel sensor "
      "parsers interleave, on the number of processors, on the order in which the file system lists files, or on the "
      "host's clock and time zone.",
      ["schedules", "inputs", "configurations"],
      "every interleaving of the parser threads, processor count, directory order, host time zone and clock; every "
      "dive that can be expressed in the supported formats",
      "the tests parse a few fixed strings per sensor class and one bundled dive on one schedule of one machine; none "
      "of them compares a whole dive with what was logged",
      ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_phins.py", "src/auv_nav/parsers/parse_gaps.py",
       "src/auv_nav/parsers/parse_acfr_images.py", "src/auv_nav/parsers/parse_interlacer.py",
       "src/auv_nav/parsers/parse_tide_CTI.py", "src/auv_nav/parsers/parse_NOC_polpred.py", "src/auv_nav/sensors.py",
       "src/auv_nav/tools/time_conversions.py"],
      [("one pool task per sensor, results collected in submission order", "src/auv_nav/parse.py parse_single"),
       ("records sorted by time before the file is published", "src/auv_nav/parsers/parse_interlacer.py")],
      "simulated dives with a closed-form truth parsed under seeded thread schedules, processor counts, directory "
      "orders and host time zones; multiset comparison of the whole navigation file with the reference model",
      observe=["processed/<dive>/nav/nav_standard.json"]),
    P("P02", "A damaged inertial navigation message costs only itself",
      "When messages of a checksummed inertial navigation (PHINS) log are corrupted, cut, merged, missing or mixed "
      "with garbage, parsing still succeeds, no value from a damaged message appears in the navigation file, and every "
      "reading whose messages are intact appears with the same value and time as without the damage.",
      ["fault_sequences", "inputs"],
      "every sequence of bit flips, truncations, joins, losses and insertions in the log after its first time message",
      "tests feed single well-formed lines; damage has to meet a message in the middle of a multi-message record, "
      "where the parser holds half a reading",
      ["src/auv_nav/parsers/parse_phins.py", "src/auv_nav/sensors.py"],
      [("XOR checksum test of each line", "src/auv_nav/parsers/parse_phins.py line_is_valid"),
       ("record state cleared after export", "src/auv_nav/sensors.py export/clear")],
      "fault injection on the sensor stream inside the simulated run; reference model consumes only the lines an "
      "independent checksum accepts",
      observe=["processed/<dive>/nav/nav_standard.json"]),
    P("P03", "A parse killed at any point never leaves a navigation file that looks finished",
      "If the parse command is killed at any moment, the dive's navigation file afterwards is absent, or is exactly "
      "the complete file of an earlier parse, or is exactly the complete new file. Running the command again (with "
      "the overwrite option where a previous result exists) then succeeds and gives the complete new file.",
      ["crash_points", "schedules", "histories"],
      "every crash point between and inside file operations, repeated crashes, with and without a previous result, "
      "under every thread schedule",
      "no test kills the program; the window between creating the result file and completing it is never observed",
      ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_interlacer.py", "src/oplab/folder_structure.py"],
      [("result written under a temporary name, then renamed", "src/auv_nav/parse.py"),
       ("check for existing output before parsing", "src/auv_nav/parse.py check_output_files_exist")],
      "crash and torn-write injection at seeded file operations; only bytes handed to the kernel survive; state "
      "compared with the reference model, then recovery run",
      observe=["processed/<dive>/nav/nav_standard.json"]),
    P("P04", "Dives parsed or merged in one command do not influence each other",
      "When one command parses several dives, each dive's navigation file is the same as if that dive had been parsed "
      "alone, whatever the order of the dives. With the merge option the merged navigation file holds exactly the "
      "records of all the dives in time order, with one origin and with each image name preceded by its dive's name.",
      ["histories", "schedules", "inputs"],
      "every list and order of dives, with earlier results present or not, under every thread schedule",
      "tests parse one dive per process; state kept between dives is only visible in the second one",
      ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_acfr_images.py", "src/auv_nav/parsers/parse_gaps.py"],
      [("dives handled one after another by the same function", "src/auv_nav/parse.py parse"),
       ("merge of the per-dive files", "src/auv_nav/parse.py merge_json_files")],
      "two or three simulated dives per history in seeded order; every single and merged file compared with the "
      "reference model",
      observe=["processed/<dive>/nav/nav_standard.json", "processed/<first>_<last>_merged/nav/nav_standard.json"]),
    P("P05", "Processing gives the same tables whatever the thread schedule, and loses no sensor reading",
      "Processing a parsed dive gives byte-identical result files (tables of the raw sensor values, navigation solutions, "
      "camera and payload poses) however its writer and plotter threads interleave, and whatever the number of "
      "processors, the host's clock and its time zone. Each table of raw sensor values holds exactly one row for every "
      "reading of that sensor in the processed time span, with the logged values.",
      ["schedules", "configurations"],
      "every interleaving of the writer, plotter and main threads (including switches between source lines of the main "
      "computation), every dive and output configuration",
      "the threads share the lists that the main thread goes on changing; a test that runs once sees one interleaving",
      ["src/auv_nav/process.py", "src/auv_nav/tools/csv_tools.py", "src/auv_nav/sensors.py"],
      [("one thread per table and plot, joined at the end", "src/auv_nav/process.py"),
       ("lists shared between the threads and the computation", "src/auv_nav/process.py")],
      "each simulated dive processed under a reference schedule and under a seeded one with preemption at locks, file "
      "operations and source lines; result trees compared byte by byte; raw tables compared with the generated readings",
      observe=["processed/<dive>/json_renav_*/csv"]),
    P("P06", "Processed navigation puts the vehicle, every image and every payload reading where they were",
      "For a dive with consistent sensors, every navigation solution that is switched on (dead reckoning, extended "
      "Kalman filter with or without smoother, particle filter) gives for every attitude reading between the first and "
      "the last DVL reading the vehicle's true position, depth, altitude and attitude within the solution's accuracy. "
      "Every image and payload reading taken inside the track has exactly one row, at its own time, under its own name, "
      "at the position of that camera or payload on the vehicle (mounting offsets rotated by the attitude), with "
      "latitude and longitude of the same place; nothing outside the track has a row. Grossly wrong USBL fixes are "
      "removed by the USBL filter. The Kalman filter states a positive deviation for every coordinate of every row, and "
      "for every camera table writes a covariance table with one row per image in the same order, symmetric and agreeing "
      "with those deviations; an image has the deviations of the track at its own time. Asked for relative uncertainties "
      "between two laser images, process writes tables of exactly the images from the one to the other, zero for the "
      "first, the sum of both covariances for the others, and changes no other table. Switched-off tables are not "
      "written.",
      ["inputs", "configurations", "schedules"],
      "every consistent dive: trajectories, mounting offsets, sensor rates, phases, lags, silent periods and outliers, "
      "time windows, output configurations, under every thread schedule",
      "the tests run the filters on fixed numbers; no test knows where the vehicle really was, and edge effects at the "
      "ends of the track and at sensor gaps need particular phases of the sensors",
      ["src/auv_nav/process.py", "src/auv_nav/localisation/dead_reckoning.py", "src/auv_nav/localisation/ekf.py",
       "src/auv_nav/localisation/pf.py", "src/auv_nav/localisation/usbl_filter.py",
       "src/auv_nav/localisation/usbl_offset.py", "src/auv_nav/tools/interpolate.py",
       "src/auv_nav/tools/body_to_inertial.py", "src/auv_nav/tools/latlon_wgs84.py", "src/auv_nav/sensors.py"],
      [("interpolation of the track to image and payload times", "src/auv_nav/tools/interpolate.py interpolate_sensor_list"),
       ("lever arm corrections", "src/auv_nav/process.py, src/auv_nav/sensors.py fromSyncedBodyVelocity")],
      "simulated vehicles with closed-form trajectories: real command run on the generated readings under seeded "
      "schedules, every row of every table compared with the closed form",
      observe=["processed/<dive>/json_renav_*/csv"]),
    P("P07", "A failing or full disk is never reported as success",
      "When a read or write fails, a file or folder cannot be created or renamed, or the disk fills up while parse or "
      "process runs, the command either ends with a non-zero status, or its results (navigation file, result tables) "
      "are exactly those of a run without the failure. It never hangs, and never ends with status 0 leaving a result "
      "missing, cut short or different.",
      ["fault_sequences", "schedules"],
      "every position of I/O errors, short writes and disk-full conditions in the sequence of file operations of every "
      "thread, under every schedule",
      "no test makes storage fail; the failures hit threads whose exceptions nobody sees",
      ["src/auv_nav/process.py", "src/auv_nav/parse.py", "src/auv_nav/tools/csv_tools.py",
       "src/auv_nav/parsers/parse_interlacer.py"],
      [("writer threads joined and asked for failures", "src/auv_nav/process.py join_threads"),
       ("results of the parser pool collected with get()", "src/auv_nav/parse.py")],
      "EIO, short write, read error and ENOSPC injected at seeded file operations; status and results compared with a "
      "fault-free reference run",
      observe=["exit status", "processed/<dive>"]),
    P("P08", "A killed process command never leaves results that a rerun takes for finished",
      "If process is killed at any moment, running it again without the overwrite option either refuses with a non-zero "
      "status and changes no result, or ends with the complete results. Running it with the overwrite option succeeds "
      "and gives exactly the results of a run that was never killed, whatever the killed runs left behind.",
      ["crash_points", "histories", "schedules"],
      "every crash point between and inside file operations of every thread, repeated crashes, with and without earlier "
      "results",
      "no test kills the program",
      ["src/auv_nav/process.py", "src/auv_nav/tools/csv_tools.py"],
      [("check for an existing result folder", "src/auv_nav/process.py"),
       ("result files opened for writing from the start", "src/auv_nav/tools/csv_tools.py write_csv")],
      "crash and torn-write injection at seeded file operations, then recovery runs; result trees compared with the "
      "fault-free reference run",
      observe=["exit status", "processed/<dive>/json_renav_*"]),
    P("P09", "Existing results are only replaced when the user asks for it",
      "Once parse or process has produced results for a dive, no sequence of further parse and process commands without "
      "the overwrite option, for the same or other time windows, killed or failing at any point, changes or removes any "
      "of the existing result files.",
      ["histories", "fault_sequences", "schedules"],
      "every history of unforced commands, with changed inputs, time windows, crashes and storage failures",
      "tests run each command once in an empty folder",
      ["src/auv_nav/parse.py", "src/auv_nav/process.py", "src/oplab/folder_structure.py"],
      [("existing navigation file skips the parse", "src/auv_nav/parse.py"),
       ("existing result folder stops process", "src/auv_nav/process.py")],
      "seeded histories of commands with injected faults; every result file hashed before and after each command",
      observe=["processed/<dive>"]),
    P("P10", "Raw data and existing configuration are never modified",
      "No parse or process command, forced or not, completing, failing or killed at any point, changes, adds or removes "
      "anything in a dive's raw data folder, or changes or removes an existing configuration file.",
      ["histories", "fault_sequences", "schedules"],
      "every history of commands, with and without overwrite option, with crashes and storage failures",
      "tests do not look at the raw folder after a run, nor do they kill commands",
      ["src/auv_nav/parse.py", "src/auv_nav/process.py", "src/oplab/folder_structure.py"],
      [("outputs go to the processed folder derived from the raw path", "src/oplab/folder_structure.py get_processed_folder")],
      "seeded histories of commands with injected faults; every raw and configuration file hashed after each command",
      observe=["raw/<dive>", "configuration/<dive>"]),
    P("P11", "Every parse and process command ends",
      "Whatever the inputs (missing, empty, cut, shuffled or corrupted logs and yaml files) and whatever storage "
      "failures occur, parse and process end: no deadlock of their threads and no endless loop.",
      ["inputs", "fault_sequences", "schedules"],
      "every damage to the input files and every storage failure, under every thread schedule",
      "a thread that dies in a particular place (holding a lock, or without handing over its result) makes the others "
      "wait for ever; tests never let a worker fail",
      ["src/auv_nav/parse.py", "src/auv_nav/process.py", "src/auv_nav/tools/csv_tools.py",
       "src/auv_nav/localisation/usbl_offset.py", "src/auv_nav/parsers"],
      [("results of the parser pool", "src/auv_nav/parse.py"), ("lock around folder creation", "src/auv_nav/tools/csv_tools.py")],
      "damaged dives and injected faults under seeded schedules; the simulator detects deadlock exactly (no runnable "
      "thread) and endless loops by a bound on executed lines without progress",
      observe=["exit status"]),
    P("P12", "Every selected image is corrected once, by its own distance and stored parameters",
      "A successful correct_images process (or correct) leaves, for every camera, exactly one readable corrected image "
      "for every raw image of the dive that has a navigated altitude inside the configured range and is in the "
      "configured list (all raw images of the camera for manual balance), each computed from that raw image, its own "
      "altitude and the parameters stored by parse, and a file list with exactly these images and their navigation. The "
      "result does not depend on how the worker processes interleave, on the number of processors, the free memory, or "
      "on the order in which the file system lists files and navigation solutions.",
      ["schedules", "inputs", "configurations"],
      "every order of the worker processes, processor count and directory order; every dive, altitude range, image "
      "list, camera type, bit depth and output format",
      "the tests exercise single correction functions on arrays; none runs the command on a dive",
      ["src/correct_images/correct_images.py", "src/correct_images/corrector.py", "src/correct_images/tools/file_handlers.py",
       "src/correct_images/corrections", "src/correct_images/loaders", "src/oplab/camera_system.py"],
      [("one joblib task per image, results collected in order", "src/correct_images/corrector.py process_correction"),
       ("images and altitudes selected together", "src/correct_images/corrector.py get_imagelist")],
      "simulated dives of small images processed by simulated worker processes under seeded schedules and host "
      "conditions; every pixel compared with an independent correction of the generated image, and with a second "
      "schedule byte by byte",
      observe=["processed/<dive>/image/<camera>/corrected_*"]),
    P("P13", "Correction parameters are those of the selected images of all dives given",
      "A successful correct_images parse of one or several dives stores, for every camera and in every one of these "
      "dives, the same parameters: per-pixel attenuation curves through the smoothed images of every altitude bin with "
      "at least ten images, gains for the mean altitude, and mean and deviation of the corrected images (of the raw "
      "images for the uniform metric), all taken over exactly the images of all dives inside the parse altitude range. "
      "They do not depend on the schedule of the worker processes, processors, memory or directory order, and no "
      "temporary memory maps are left behind.",
      ["schedules", "inputs", "configurations"],
      "every order of the worker processes and every host; every set of dives, altitude range, image list, smoothing",
      "the tests fit single curves; none runs parse, whose workers share memory-mapped files",
      ["src/correct_images/corrector.py", "src/correct_images/corrections/attenuation.py",
       "src/correct_images/tools/numerical.py", "src/correct_images/tools/memmap.py", "src/correct_images/tools/curve_fitting.py"],
      [("altitude bins computed by workers into shared memory maps", "src/correct_images/corrector.py compute_distance_bin"),
       ("running mean and deviation", "src/correct_images/tools/numerical.py")],
      "simulated dives parsed by simulated worker processes under seeded schedules; stored arrays compared with an "
      "independent computation from the generated pixels, and with a second schedule byte by byte",
      observe=["processed/<dive>/image/<camera>/params_*"]),
    P("P14", "An interrupted or failing image correction never passes for a finished one",
      "When correct_images parse or process is killed, loses a worker process, or meets a failing or full disk at any "
      "point, it ends; if it ends with status 0 its results are those of an undisturbed run and its images can be read "
      "back. Afterwards process never succeeds with parameters that mix two parse runs; the same command without the "
      "overwrite option either refuses and changes nothing or gives the complete results, and with the overwrite option "
      "it succeeds with exactly the results of an undisturbed run.",
      ["crash_points", "fault_sequences", "histories", "schedules"],
      "every kill, torn write, storage error and worker death at every file operation of the command and its workers, "
      "with and without earlier results",
      "no test kills the program or makes storage fail",
      ["src/correct_images/corrector.py", "src/correct_images/tools/file_handlers.py", "src/correct_images/correct_images.py"],
      [("images read back after writing", "src/correct_images/tools/file_handlers.py write_output_image"),
       ("existing parameters and images stop the command", "src/correct_images/corrector.py create_output_directories")],
      "crash, torn write, EIO, ENOSPC, short write, unreadable file and worker kill injected at seeded file operations, "
      "then recovery runs; results compared with an undisturbed run",
      observe=["exit status", "processed/<dive>/image"]),
    P("P15", "Image correction only replaces what the user asks it to replace",
      "No history of correct_images parse, process and correct commands, completing, failing or killed at any point, "
      "changes raw data, navigation results or existing configuration; without the overwrite option none of them "
      "changes or removes existing parameters or corrected images of any dive; with it, only the parameters (parse) or "
      "images (process) of the dives given are replaced.",
      ["histories", "fault_sequences", "schedules"],
      "every history of commands on one or several dives, with changed configuration, crashes and storage failures",
      "tests run no command of correct_images at all",
      ["src/correct_images/corrector.py", "src/correct_images/correct_images.py", "src/oplab/folder_structure.py"],
      [("existing parameters and images stop the command", "src/correct_images/corrector.py create_output_directories"),
       ("parameters copied to every dive parsed together", "src/correct_images/corrector.py parse")],
      "seeded histories of commands with injected faults; every file hashed before and after each command",
      observe=["raw/<dive>", "configuration/<dive>", "processed/<dive>"]),
    P("P16", "Camera calibration recovers the cameras the images were taken with",
      "When auv_cal mono or stereo succeeds on images of a known board, the calibration files describe the cameras that "
      "took them: the corners stored for each image are where the board's corners are, the mono calibration reproduces "
      "the true projection, the stereo calibration uses exactly the image pairs that belong together and in which both "
      "cameras see the board (less rejected outliers), gives the true relative pose, and its rectification maps belong "
      "to the cameras and pose written with them. Images without the board, unreadable images and a few outliers do not "
      "spoil it, and nothing depends on the schedule, processors, directory order or host; calibrating again from the "
      "stored corners gives the same as from the images.",
      ["schedules", "inputs", "configurations", "histories"],
      "every directory order, processor count and host; every set of board images (missing, unreadable, unmatched, "
      "outlying, already stored) of every supported pattern",
      "the tests never calibrate; errors in the pairing or the resume paths need several rounds or runs to show",
      ["src/auv_cal/auv_cal.py", "src/auv_cal/calibration.py", "src/auv_cal/camera_calibrator.py",
       "src/auv_cal/ros_cal_lib.py", "src/oplab/camera_system.py"],
      [("outliers rejected and calibration repeated", "src/auv_cal/camera_calibrator.py calibrate_stereo"),
       ("stored corners reused", "src/auv_cal/calibration.py")],
      "rendered board images of simulated cameras calibrated under seeded schedules, directory orders and hosts, with "
      "unreadable and outlying images and repeated commands; calibration compared with the simulated cameras",
      observe=["processed/<calibration dive>/calibration/mono_*.yaml", "processed/<calibration dive>/calibration/stereo_*.yaml"]),
    P("P17", "Laser calibration finds the laser sheets from properly paired images",
      "When auv_cal laser succeeds, the points it stores for each laser lie on that laser's line on the sea floor as the "
      "stereo pair of images taken together shows it, the plane it stores is that laser's sheet, and its uncertainty "
      "planes are planes of that laser through these points. Images without partner and images without a laser line "
      "contribute nothing, and nothing depends on the schedule, processors, directory order or host; running it again "
      "from stored detections gives the same.",
      ["schedules", "inputs", "configurations", "histories"],
      "every directory order, processor count and host; every set of laser images (missing partners, without laser, "
      "stored detections), one or two lasers, either orientation",
      "the tests never run the laser calibration",
      ["src/auv_cal/laser_calibrator.py", "src/auv_cal/plane_fitting.py", "src/auv_cal/calibration.py"],
      [("images detected in parallel jobs and paired by time", "src/auv_cal/laser_calibrator.py"),
       ("detections stored and reused", "src/auv_cal/laser_calibrator.py")],
      "rendered laser images of simulated cameras and laser sheets over a known sea floor calibrated under seeded job "
      "schedules and directory orders, repeated from stored detections; points and planes compared with the sheets",
      observe=["processed/<calibration dive>/calibration/laser_calibration_*.yaml"]),
    P("P18", "An interrupted or failing calibration never passes for a finished one",
      "When auv_cal is killed, loses a worker process, cannot read an image or meets a failing or full disk, it ends; "
      "if it ends with status 0 its calibration is that of an undisturbed run. Every calibration and corner file is "
      "afterwards absent, the earlier one or complete; repeating the command without an overwrite option keeps existing "
      "results and either completes them or refuses, and with it gives exactly the undisturbed calibration.",
      ["crash_points", "fault_sequences", "histories", "schedules"],
      "every kill, torn write, storage error and worker death at every file operation of the command, with and without "
      "earlier results",
      "no test kills the program or makes storage fail",
      ["src/auv_cal/calibration.py", "src/auv_cal/laser_calibrator.py", "src/auv_cal/auv_cal.py"],
      [("results written beside and renamed", "src/auv_cal/calibration.py"),
       ("existing results skipped or reused", "src/auv_cal/calibration.py")],
      "crash, torn write, EIO, ENOSPC, short write, unreadable file and worker kill injected at seeded file operations "
      "of simulated calibrations, then recovery runs; results compared with an undisturbed run",
      observe=["exit status", "processed/<calibration dive>/calibration"]),
    P("P19", "Every supported instrument format is read completely, correctly and in UTC",
      "Whatever vehicle recorded the dive (AE2000, ALR, Autosub, Koyo ROV, RDI, NTNU and EIVA logs, USBL dumps, NMEA and "
      "Sonardyne positions, SeaXerocks, BioCam, NTNU, Voyis and GoPro images), nav_standard.json holds each valid "
      "reading exactly once, in time order, with the value and hemisphere the instrument wrote, in the documented units, "
      "at the UTC time given by the instrument's clock, its time zone and its time offset in mission.yaml; the host's "
      "time zone, directory order, thread schedule and other dives in the same command change nothing; a log that cannot be "
      "read or a result that cannot be written never ends in success with readings missing.",
      ["all_inputs", "schedules", "configurations", "crash_points"],
      "all logs of these instruments, all combinations of formats in a dive, zones, offsets and dives of one command",
      "tests hold no log of most formats and run in one host time zone with one dive",
      ["src/auv_nav/parsers", "src/auv_nav/sensors.py", "src/auv_nav/parse.py", "src/oplab/mission.py"],
      [("one parser per format and category, chosen by mission.yaml", "src/auv_nav/parse.py"),
       ("time zone and offset applied to every reading", "src/auv_nav/tools/time_conversions.py"),
       ("measurement classes fill and export one record", "src/auv_nav/sensors.py")],
      "simulated parse runs of generated dives in every log format under seeded schedules, directory orders, host clocks "
      "and zones, one or two dives per command; records compared with the numbers written into the logs"),
    P("P20", "Converting solutions keeps every pose and image, and never silently replaces results",
      "`auv_nav convert` hands over what it was given: oplab_to_acfr writes every pose of the solution, its image pair and every "
      "raw reading in order; acfr_to_oplab writes one row for each pose and image of the ACFR files, and one for each laser image, "
      "interpolated between the poses around it; hybis_to_oplab writes one row for each image, interpolated between the log "
      "entries around its time, headings always the shorter way round across north; angles are radians in ACFR files and degrees in oplab "
      "tables. Without -F no existing result is replaced; with -F the result equals that of a first run; after a write "
      "error, a full disk or a crash the command never reports success with output missing.",
      ["all_inputs", "crash_points", "configurations"],
      "all solutions, all image and log times relative to the poses, all crash and fault points, all earlier results",
      "no test converts a solution",
      ["src/auv_nav/convert.py", "src/auv_nav/parsers/acfr_combined_raw.py", "src/auv_nav/parsers/acfr_stereo_pose.py",
       "src/auv_nav/parsers/acfr_vehicle_pose.py", "src/auv_nav/parsers/hybis.py", "src/auv_nav/tools/interpolate.py"],
      [("overwrite guards before each output", "src/auv_nav/convert.py"),
       ("camera poses interpolated at laser image times", "src/auv_nav/tools/interpolate.py"),
       ("ACFR files read and written", "src/auv_nav/parsers/acfr_stereo_pose.py")],
      "simulated conversions of generated solutions under crashes, failing and short writes and full disks, over "
      "earlier results, with and without -F; outputs compared with the poses written into the inputs"),
]

NOT_APPLICABLE = []
