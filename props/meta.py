"""What the driver needs to know without importing any code under test."""
REAL = ("auv_nav / oplab command line, parsers, processing, csv and json writers, ThreadPool, threading, logging, "
        "pathlib, shutil, json, pandas, numpy")
STUB = ("plotly html and matplotlib png rendering (writes the plotted data instead), wall clock, directory order, "
        "raw file and directory system calls (real files in a scratch folder behind the seam)")
NAV_ASSUME = [
    "a crash is the death of the process: bytes handed to the kernel survive, user-space buffers do not (the code "
    "never calls fsync, so power loss is outside what it promises)",
    "threads interleave at lock, queue, thread and file operations, and at source lines where the plan says so; "
    "switches inside one C call or one source line are not explored",
    "synthetic dives: PHINS, GAPS, ACFR-style image names and the other listed formats, tens of seconds long",
]


def m(module, quick, thorough, level="exploration", **kw):
    d = {"module": module, "quick": quick, "thorough": thorough, "level": level,
         "real": REAL, "stub": STUB, "assumptions": NAV_ASSUME}
    d.update(kw)
    return d


CI_REAL = ("correct_images / oplab command line, configuration, image loaders, attenuation fit, corrections, image and "
           "table writers, imageio, Pillow, tifffile, OpenCV, scipy, numba, pandas; worker processes are real forked "
           "processes with pickled tasks")
CI_STUB = ("joblib's process pool (same semantics; one worker runs at a time between two file operations, in seeded "
           "order), matplotlib png rendering, wall clock, processor count, free memory, directory order, raw file and "
           "directory system calls (real files in a scratch folder behind the seam)")
CI_ASSUME = [
    "a crash is the death of the process: bytes handed to the kernel survive, user-space buffers do not",
    "worker processes interleave at file operations and task boundaries; pages of shared memory maps are not torn",
    "synthetic images of 10x10 to 12x12 pixels (tif or png, grayscale, Bayer or colour), tens of images per dive; "
    "ransac_mean smoothing (unseeded random numbers), ROS bag and xviii raw images are outside",
]

CAL_REAL = ("auv_cal / oplab command line, pattern detection and calibration (OpenCV), laser line detection, triangulation, plane "
            "fits, file writers; worker processes are real forked processes with pickled tasks")
CAL_ASSUME = [
    "a crash is the death of the process: bytes handed to the kernel survive, user-space buffers do not",
    "worker processes interleave at file operations and task boundaries",
    "rendered images (240x180 to 360x240 pixels) of a board and of laser sheets on a flat floor seen by one to three cameras with "
    "radial distortion; tolerances of 3 % in focal length, 6 pixels in the principal point, 0.04 rad and 18 mm between cameras, "
    "0.005 in the plane coefficients; uncertainty planes of point clouds that allow none are outside",
]

META = {
    "P01": m("p_parse", 600, 12000),
    "P02": m("p_parse", 600, 12000),
    "P03": m("p_parse", 400, 8000),
    "P04": m("p_parse", 300, 6000),
    "P05": m("p_process", 250, 6000),
    "P06": m("p_process", 400, 8000),
    "P07": m("p_faults", 500, 10000),
    "P08": m("p_faults", 250, 5000),
    "P09": m("p_faults", 400, 8000),
    "P10": m("p_faults", 350, 7000),
    "P12": m("p_images", 250, 6000, real=CI_REAL, stub=CI_STUB, assumptions=CI_ASSUME),
    "P13": m("p_images", 80, 2500, real=CI_REAL, stub=CI_STUB, assumptions=CI_ASSUME),
    "P14": m("p_images", 220, 5000, real=CI_REAL, stub=CI_STUB, assumptions=CI_ASSUME),
    "P15": m("p_images", 150, 4000, real=CI_REAL, stub=CI_STUB, assumptions=CI_ASSUME),
    "P16": m("p_cal", 120, 4000, real=CAL_REAL, stub=CI_STUB, assumptions=CAL_ASSUME),
    "P17": m("p_cal", 60, 2000, real=CAL_REAL, stub=CI_STUB, assumptions=CAL_ASSUME),
    "P18": m("p_cal", 120, 4000, real=CAL_REAL, stub=CI_STUB, assumptions=CAL_ASSUME),
    "P11": m("p_faults", 1200, 30000),
    "P19": m("p_instr", 1200, 20000),
    "P20": m("p_conv", 1000, 16000),
}
