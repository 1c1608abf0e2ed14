#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts can be reviewed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

TM = "src/trap_managers.cpp"; CTI = "src/cti.cpp"; ROE = "src/roe.cpp"; TR = "src/traps.cpp"

prop("C01", "Every capture/release event conserves charge",
 "Whenever a population of traps meets a charge cloud, the number of electrons added to (or taken from) the cloud equals exactly the decrease (or increase) in the number of electrons held by those traps, to floating-point accuracy. This holds for every type of trap (instant capture, slow capture, and both continuous-release versions, including surface traps), after any history of clouds, and no interaction ever takes more electrons than the cloud contains or produces a non-finite number.",
 ["inputs", "histories"], "every trap type and mixture of species, every CCD well shape, every sequence of non-negative cloud sizes interleaved with storing, restoring, resetting and pruning the trap state",
 "The tests compare a handful of hand-built trap states to hand-worked numbers; bookkeeping errors only show after particular orders of rising and falling clouds, partial fills and pruning.",
 [TM, TR, "src/ccd.cpp"],
 [("n_electrons_released_and_captured of each trap manager", TM), ("update_watermarks_capture / _not_enough", TM), ("fraction_traps_exposed_per_fractional_volume", TR)],
 ["return value of each interaction and the trapped-electron total before and after it"])

prop("C02", "Trap occupancy stays physical",
 "At all times every trap species is filled to between zero and its full density at every depth of the pixel, the recorded trapped regions have non-negative extent and together never exceed the pixel's volume (nor the largest cloud seen since the traps were last empty), and their number stays within the space set aside for them. Traps that have been reset, or that never met a cloud, hold nothing and release nothing.",
 ["inputs", "histories"], "every trap type, well shape and history of non-negative cloud sizes with store, restore, reset and prune operations",
 "Tests inspect a few states after a few transfers; occupancy corruption needs specific multi-step histories to appear and often leaves the immediate return value looking plausible.",
 [TM], [("watermark arrays and active range", TM), ("reset/store/restore_trap_states", TM), ("capacity from the number of transfers", TM)],
 ["trap-manager state after every operation"],
 [dict(name="watermark_volumes / watermark_fills", meaning="extent and occupancy of each region of the pixel", where="include/trap_managers.hpp")])

prop("C03", "Capture and release follow the documented trap physics",
 "For any history of clouds, the electrons released and captured in each dwell equal those of the physical model: traps release exponentially at their release rate; instant-capture traps within the cloud's volume fill completely, or all by the same share of what is empty when the cloud has too few electrons; slow-capture traps within the cloud relax at their combined rates while those above only release; and traps with a log-normal spread of release times do the same for the distribution's average, to the accuracy of their tabulated functions. The resulting occupancy at every depth of the pixel agrees with that model too.",
 ["inputs", "histories"], "every trap type and set of species, dwell time, well shape, and history of non-negative cloud sizes",
 "Unit tests fix a few watermark configurations; the model must hold for the composition of arbitrarily many capture/release events, whose number of distinct orderings is unbounded.",
 [TM, TR, "src/ccd.cpp"],
 [("n_electrons_released, n_electrons_captured", TM), ("fill probabilities", TM), ("interpolation tables", TR)],
 ["return value of each interaction; occupancy as a function of depth"])

prop("C04", "Clocking an image equals the documented transfer-by-transfer model",
 "The output image of adding CTI equals that of an independent execution of the documented algorithm: for each column, for each express pass, pixels in readout order meet the traps of each phase at each clocking step, exchange charge with the documented pixels and shares, scaled by the number of transfers that pass represents, with trap states kept, restored or emptied as configured. This holds for standard readout, charge injection and trap pumping, for any number of phases, any mixture of trap types, and with or without traps carrying over from one column to the next.",
 ["inputs", "configurations"], "all images, readout configurations, phase counts, trap mixtures, express settings, offsets and windows",
 "The existing image tests pin a few small images with mostly one trap and one phase; interactions between options (phases x express x offsets x carry-over x trap mixtures) are not sampled.",
 [CTI, ROE, TM], [("clock_charge_in_one_direction", CTI), ("TrapManagerManager", TM), ("clock sequence, express matrix, store matrix", ROE)],
 ["output image"])

prop("C05", "Express multipliers account for every transfer exactly once",
 "For every image size, offset, prescan, overscan and express setting, the multipliers that a pixel receives over all express passes are non-negative, none exceeds the transfers one pass stands for, and they add up to exactly the number of pixel-to-pixel transfers that pixel undergoes: its position plus one plus any offset and prescan, less the virtual transfers through the overscan; the full number of transfers for charge injection; the number of pumps (plus any window offset) for trap pumping. Integer-only multipliers are whole numbers with the same sums, and when first transfers are treated separately each pixel's first transfer has weight one at most and meets traps before any of its other transfers.",
 ["configurations"], "all row counts, express values, window offsets, prescans, overscans, integer and first-transfer options, and readout types, including express larger than the number of transfers",
 "The tests print and compare a few matrices for 12-pixel columns; sums over the whole five-dimensional configuration space, and the rounding at its edges, are not examined.",
 [ROE], [("set_express_matrix_from_rows_and_express", ROE), ("ROEChargeInjection / ROETrapPumping versions", ROE)],
 ["express matrix and number of passes"])

prop("C06", "Trap states are handed over between express passes on schedule",
 "In standard readout, each express pass but the last saves the trap state exactly once, at the pixel just before the first one that the next pass transfers, so that every pass starts from the state the previous one left there. Nothing is saved when first transfers are treated separately or for charge injection, and trap pumping saves after every active pass but the final pass.",
 ["configurations"], "all row counts, express values, offsets, prescans, overscans and readout types",
 "Tests check a few matrices by eye; the schedule depends on rounding of multipliers across all sizes.",
 [ROE, CTI], [("set_store_trap_states_matrix", ROE), ("store_trap_states / restore_trap_states", TM)],
 ["store matrix; output image"])

prop("C07", "The clocking sequence moves charge consistently for any number of phases",
 "At every clocking step exactly one phase holds charge, and it captures from the one pixel whose cloud is there; every phase releases to the pixel (or half each to the two pixels) whose charge-holding phase is nearest, with shares adding to one. When release towards readout is forbidden no phase captures from or releases to a pixel nearer the readout, and a pumping sequence with twice as many steps as phases is symmetric, returning the charge to where it started.",
 ["configurations"], "every number of phases from one up, standard and pumping sequences, both release-direction settings",
 "Tests compare one to four phases with printed tables; the rule is for any number of phases.",
 [ROE], [("set_clock_sequence", ROE)], ["clock sequence"])

prop("C08", "Readout is causal and columns are independent",
 "With traps emptied between columns, each output column depends only on the same input column and the outcome does not depend on the order or number of the other columns; within a column, changing pixels further from readout never changes the output of pixels nearer to it. Even when trap states carry over between columns, a column never depends on columns read out after it.",
 ["inputs", "configurations"], "all images, trap models, express settings and readout configurations that do not release towards the readout",
 "Tests never perturb one part of an image and compare another; leakage between columns or backwards in time needs specific content to show.",
 [CTI, TM], [("column loop with private trap state", CTI), ("reset of trap states between columns", CTI)], ["pairs of output images"])

prop("C09", "Windows, offsets and prescans select and shift without side effects",
 "Restricting the calculation to a window of rows and columns leaves every pixel outside it exactly as it was (except that, with several phases, charge may be released into the single row adjoining the window), and, with traps emptied between columns and no release towards the readout, the pixels inside get the same values as in a full calculation of the same image with the pixels before the window set to zero and the columns outside it ignored. Giving a sub-image a window offset has the same effect as a prescan of the same size, and, when each pass starts from empty traps (first transfers treated separately, or charge injection), as padding the image with that many empty pixels before it.",
 ["inputs", "configurations"], "all images, row and column windows in both directions, offsets and prescans",
 "Tests use a few windows on one image; the equivalence is over all windows and offsets.",
 [CTI, ROE], [("row_start/stop and column_start/stop loops", CTI), ("offset in the express matrix", ROE)], ["pairs of output images"])

prop("C10", "Removing CTI inverts adding it",
 "For moderate trap densities, removing CTI from an image to which CTI was added by the same model returns towards the original, the error shrinking with each iteration to numerical accuracy; the result is a fixed point, in that re-adding CTI to the corrected image reproduces the input ever more closely. Zero iterations return the input, and one iteration equals twice the input minus the input with CTI added.",
 ["inputs", "configurations"], "all non-negative images with moderate trap densities, trap types, parallel and serial readout, and iteration counts",
 "Tests check one image with one model; convergence must hold for each model and image.",
 [CTI, "python/arcticpy/cti.py"], [("remove_cti iteration", CTI), ("python remove_cti iteration", "python/arcticpy/cti.py")], ["output images"])

prop("C11", "Serial readout is parallel readout of the transposed image",
 "Adding serial CTI to an image equals transposing it, adding the same model as parallel CTI and transposing back, including windows in both directions; adding both together equals adding parallel first and then serial to the result.",
 ["inputs", "configurations"], "all (also non-square) images, models and windows",
 "Tests do this for one small image; swapped rows, columns, or parameters show only for asymmetric shapes, windows and models.",
 [CTI, "src/util.cpp"], [("add_cti parallel and serial stages", CTI), ("transpose", "src/util.cpp")], ["output images"])

prop("C12", "Modelling is a pure function of its inputs",
 "Adding or removing CTI never modifies the input image or the caller's readout, CCD and trap descriptions in any way that affects later results: repeating a call in the same process, in any order with other calls, with other sizes, models and express values, using the same or freshly made model objects, at any verbosity, gives bit-identical results. A readout description that is copied or assigned keeps its own settings: changing or assigning one never alters another.",
 ["histories", "inputs"], "all sequences of calls sharing images and model objects, and all verbosity levels",
 "Each test makes one call with fresh objects; leaked state shows only across calls.",
 [CTI, ROE, "src/util.cpp"], [("by-value working copies", CTI), ("ROE::operator=", ROE), ("default dwell times", "include/roe.hpp")], ["output images and model objects before and after"])

prop("C13", "Results do not depend on threads and parallel execution is race-free",
 "The output of adding or removing CTI and of the read-noise model is bit-identical for every number of threads and every scheduling of them, for every readout configuration including traps carried over from column to column. Concurrent execution performs no unsynchronised conflicting accesses to memory.",
 ["schedules", "configurations"], "every thread count and interleaving of the parallel regions, over all configurations",
 "Tests run once at the default thread count and never compare schedules; data races are invisible to value comparisons on a lucky run.",
 [CTI, "src/read_noise.cpp"], [("omp parallel for with private/firstprivate state", CTI), ("omp loops", "src/read_noise.cpp")], ["output under different thread counts; race reports"])

prop("C14", "No memory error or undefined behaviour on any valid input",
 "For every valid image, window and model, including single-row, single-column and extreme-valued images, many pumps, many phases and carried-over trap states, the library reads and writes only memory that it owns and performs no undefined arithmetic or conversion. This covers adding and removing CTI, the trap models, express matrices, image files, the read-noise model, and every level of verbosity.",
 ["inputs", "configurations", "histories"], "all valid inputs to every public function",
 "Tests run without sanitizers and mostly avoid edges; out-of-bounds access by one element usually passes silently.",
 [CTI, TM, ROE, TR, "src/util.cpp", "src/read_noise.cpp"], [("array sizing from transfers", TM), ("index arithmetic", CTI)], ["sanitizer reports"])

prop("C15", "Pruning tiny trapped packets is harmless",
 "Merging trapped regions that hold fewer electrons than the threshold conserves the total number of trapped electrons, up to the packets dropped at the top, leaves regions physical and no more numerous than before, and never disturbs what later clouds capture or release. The image produced with the default pruning differs from that without pruning by no more than the pruned electrons allow, and a frequency of zero disables it. A region holding (or, for a negative threshold, about to release in the next step) at least the threshold is left alone while a smaller one is merged into the one below wherever it fits.",
 ["inputs", "histories", "configurations"], "every trap type, trap-state history, threshold and pruning frequency",
 "The only tests prune a few hand-made states once; errors appear only when a pruned state meets later clouds.",
 [TM, CTI], [("prune_watermarks", TM), ("pruning frequency", CTI)], ["trap state before and after pruning; output images"])

prop("C16", "Negative pixels are produced only when allowed",
 "When negative pixels are forbidden and the input image has none, no output pixel of adding CTI (in either language) or of removing it in C++ is negative, whatever the traps and express setting. When they are allowed the option changes nothing unless some pixel would have gone negative, and trapped charge is never drawn from pixels with no electrons to give.",
 ["inputs", "configurations"], "all images, models, express settings, iteration counts and both languages",
 "Tests do not use the option with overfull traps or coarse express values, where it matters.",
 [CTI, "python/arcticpy/cti.py"], [("allow_negative_pixels clamps", CTI)], ["output images"])

prop("C17", "Cloud volume is a monotonic, bounded function of charge",
 "The fraction of a pixel's volume taken by a cloud equals the first-electron fill plus the remaining share times the documented power of the charge above the notch over the well depth above the notch, limited to the range from empty to full. It never decreases with more electrons, never exceeds one, and is exactly the first-electron fill at or below the notch and one at or above the full well.",
 ["inputs"], "all electron numbers and all valid well depths, notches, powers and first-electron fills",
 "Tests sample a few values; monotonicity and bounds hold over the continuum.",
 ["src/ccd.cpp", "src/util.cpp"], [("cloud_fractional_volume_from_electrons", "src/ccd.cpp"), ("clamp", "src/util.cpp")], ["return value"])

prop("C18", "Release-time distributions give proper, invertible fill fractions",
 "For every trap species the fraction still filled after a given time is one at zero, never increases, stays between zero and one and tends to zero; for log-normally distributed release times it equals the average of exponentials over that distribution, and the fraction after slow capture equals the average of the slow-capture solution. Finding the time for a fraction inverts finding the fraction for a time, the precomputed tables agree with the exact functions to interpolation accuracy over the tabulated range, and with narrow spread they reduce to a single release time; surface traps expose between none and all of themselves and their exposure adds up over adjoining volumes to the advertised density.",
 ["inputs"], "all release and capture timescales, spreads, times, fractions and volumes in the usable range",
 "Tests evaluate two or three parameter sets; the relations hold over the continuum of times, spreads and timescales.",
 [TR], [("fill_fraction_from_time_elapsed and its inverse", TR), ("interpolation tables", TR), ("fraction_traps_exposed_per_fractional_volume", TR)], ["return values"])

prop("C19", "The Python interface computes exactly what the C++ library computes",
 "For any image array (any numeric type, memory layout or list) and any mixture and order of trap objects, readouts and CCDs, the Python functions to add and remove CTI return the same numbers as the C++ library with the same model, and leave the caller's arrays, model objects and lists unchanged. Options given in Python (express, offsets, windows, pruning, negative pixels, verbosity) take effect as the same options in C++; only removal with negative pixels forbidden may differ, after its first iteration. A header passed along is marked with what was done last, addition or correction, and keeps its other entries.",
 ["inputs", "configurations"], "all image dtypes and layouts, trap lists, model objects and options",
 "The Python tests compare with a few stored results, mostly contiguous float arrays and one or two traps in one order.",
 ["python/arcticpy/cti.py", "python/arcticpy/wrapper.pyx", "python/arcticpy/src/interface.cpp"], [("parameter extraction and ordering", "python/arcticpy/cti.py"), ("interface.cpp reconstruction of traps", "python/arcticpy/src/interface.cpp")], ["returned arrays and inputs"])

prop("C20", "Pixel bounce is local, windowed and linear in the signal history",
 "The bounce bias added to a pixel depends only on pixels read out before or at it in the same row, vanishes for uniform images of the reference level and zero amplitude, and touches only the requested window. Several bounce terms applied together through the CTI interface give the sum of their individual effects, and removing pixel bounce that was added restores the image as iterations increase: each of exactly the requested number of iterations adds the input minus the estimate with bounce added. Terms with negative damping or frequency, and a missing list of terms, are refused.",
 ["inputs", "configurations"], "all images, bounce parameters (under- and over-damped), windows and lists of bounce terms",
 "Tests only exercise one call path with fixed parameters.",
 ["python/arcticpy/pixel_bounce.py", "python/arcticpy/cti.py"], [("PixelBounce", "python/arcticpy/pixel_bounce.py"), ("pixel_bounce_list", "python/arcticpy/cti.py")], ["returned arrays"])

prop("C21", "Read-noise separation is exact and both implementations agree",
 "Splitting an image into a smooth signal and a noise part always satisfies signal plus noise equals the image, and each step of the split changes the noise of no pixel by more than its clipped share of the estimated noise. The compiled noise-model routine returns, for every image shape of at least two by two, the values of the documented neighbourhood formula, independent of the thread count, and writes nothing to the terminal.",
 ["inputs", "configurations"], "all images, noise amplitudes, clipping fractions and smoothing options",
 "No test runs the compiled routine against the Python one on edges and corners.",
 ["src/read_noise.cpp", "python/arcticpy/read_noise.py"], [("determine_read_noise_model", "src/read_noise.cpp"), ("ReadNoise", "python/arcticpy/read_noise.py")], ["returned arrays, standard output"])

prop("C22", "Image files and array utilities are faithful",
 "Writing an image to a text file and loading it back returns the same shape and values to the printed precision, and a missing, truncated, non-numeric or badly dimensioned (zero or negative) file ends with an error message and non-zero status, never a crash or invented data. Transposing twice is the identity and exchanges indices, flattening keeps row-major order, ranges have the expected members, clamping is idempotent and bounded, and elapsed time is the true difference of the clock readings.",
 ["inputs", "fault_sequences"], "all finite images and shapes, malformed and truncated files, and all pairs of clock readings",
 "Tests load one good file; malformed files and microsecond borrow are not tried.",
 ["src/util.cpp"], [("load_image_from_txt, save_image_to_txt", "src/util.cpp"), ("transpose, flatten, arange, clamp, gettimelapsed", "src/util.cpp")], ["files, return values, exit status"])

prop("C23", "Invalid configurations are rejected, never computed with",
 "A negative prescan, non-positive overscan start, an odd number of trap-pumping steps, mismatched numbers of phases, mismatched trap fractions, or trap pumping of other than one active row is always reported as an error, without returning an image. Valid configurations are never rejected.",
 ["configurations"], "all combinations of the listed invalid settings with otherwise valid ones",
 "Only some errors are tested, one value each, and none together with other options.",
 [ROE, CTI, "src/ccd.cpp"], [("argument checks", ROE), ("checks in clock_charge_in_one_direction", CTI)], ["exceptions, exit status and messages"])

prop("C24", "CTI vanishes without traps or charge",
 "With no traps, or traps of zero density of any type, or traps lying wholly outside the clouds (above their volume or below the notch), the output equals the input; an empty image stays exactly empty. Image values scale linearly when charge, well depths and densities are all scaled together, and results are unchanged when all times are scaled together.",
 ["inputs", "configurations"], "all images, models and scale factors",
 "Tests never rescale a model and do not cover zero-density species of each type.",
 [CTI, TM, TR], [("capture and release arithmetic", TM), ("cloud volume", "src/ccd.cpp")], ["pairs of output images"])

prop("C25", "Only how many traps there are matters, not how they are listed",
 "Splitting a trap species into several of the same kind whose densities add up to the original, reordering species of one kind, adding species of zero density, or giving an empty list instead of none leaves the output image unchanged to rounding. Surface traps with no exposure threshold, continuous traps in the limit of narrow (or no) spread, and slow-capture traps in the limit of instant (or zero) capture time behave as the simpler trap they reduce to, also when those parameters are left at their defaults.",
 ["inputs", "configurations"], "all images, trap lists, splits and permutations",
 "Tests use fixed lists of one or two species.",
 [TM, CTI], [("sum over species", TM), ("per-type trap lists", CTI)], ["pairs of output images"])

prop("C26", "Charge is conserved over the whole image",
 "With every transfer computed and each pass starting from empty traps (first transfers treated separately, or charge injection), no charge is created: the total of each output column never exceeds that of the input column, the charge missing is never more than the traps could hold in each pass, and when enough empty pixels follow the signal for the traps to empty, the total is recovered. With a single express pass the changes of a column's pixels, each divided by the number of transfers it stands for, add up to exactly minus the electrons left in the traps.",
 ["inputs", "configurations"], "all non-negative images and trap models",
 "Tests do not sum columns; a systematic loss of charge at edges or phases goes unnoticed.",
 [CTI, TM, ROE], [("charge returned to the image", CTI), ("release fractions", ROE)], ["column totals"])

prop("C27", "Verbosity zero is silent and printing never alters results",
 "At verbosity zero, adding or removing CTI and every other library and Python modelling function writes nothing to standard output. Raising the verbosity prints progress without changing any result, for every kind of trap and readout, including models with no instant-capture traps.",
 ["configurations", "inputs"], "all models and all verbosity levels in both languages",
 "Tests never look at the output stream nor run the detailed level with each trap type.",
 ["src/util.cpp", CTI, TM, "src/read_noise.cpp", "python/arcticpy/cti.py"], [("print_v", "include/util.hpp"), ("verbosity argument", CTI)], ["standard output and results"])

prop("C28", "The Hubble ACS model is physically consistent at every date",
 "For every date, the model supplied for the Hubble ACS camera returns valid parallel (and optional serial) readout, CCD and trap objects whose densities and timescales are finite and non-negative; the total trap density is linear and increasing in time within each of the two epochs before and after Servicing Mission 4, and the release times change only at the documented date on which the operating temperature was lowered. The same date always yields the same model, whatever was requested before. Its numbers are the published ones: three instant-capture species sharing the density 17:45:38 with release times 0.48, 4.86, 20.6 (then 0.74, 7.70, 37.0) pixels, total density 0.017845 + 3.5488e-4 per day since launch before Servicing Mission 4 and 1.011 (-0.246591 + 5.5898e-4 per day) after, wells of 84700 electrons filling with power 0.478, no serial traps, parallel overscan from row 2048.",
 ["inputs", "histories"], "all dates from launch onwards and all sequences of requests",
 "One test uses two dates.",
 ["python/arcticpy/cti.py"], [("CTI_model_for_HST_ACS", "python/arcticpy/cti.py")], ["returned model objects"])
prop("C29", "A Poisson draw of a trap species is a fair copy of it",
 "Drawing a trap species for a given number of pixels returns a new instant-capture species holding a whole number of traps, with mean and variance equal to its density times the pixels, reproducible for a seed whatever was drawn before and different without one; everything else (release time, depths between which surface traps are exposed) is kept and the original is unchanged. The ellipticity a species adds is proportional to its density and follows the published fit at every release time.",
 ["inputs", "histories"], "all species, areas and seeds",
 "No test draws traps or evaluates the ellipticity.",
 ["python/arcticpy/traps.py"], [("poisson_density_from", "python/arcticpy/traps.py"), ("delta_ellipticity", "python/arcticpy/traps.py")], ["returned species and their statistics"])

prop("C30", "The command-line program does what its options say",
 "For every command line the program acts on the documented options in short, long and combined forms and any order: help is printed and ends with success before anything runs; an unknown option or missing value is reported and ends with failure before anything runs; other words are listed as unparsed. The demonstration writes, in the working directory only, its test image and that image with CTI added and removed as the library computes it; the benchmark runs on the image provided or fetched. Work that cannot be done ends with a failing status, and at verbosity zero only errors, notices of unparsed words and the download command are printed, with the same files written as at any other level.",
 ["inputs", "configurations", "faults"], "all command lines and contents of the working directory",
 "The tests never run the program's own main function.",
 ["src/main.cpp"], [("parse_parameters", "src/main.cpp"), ("run_demo", "src/main.cpp"), ("run_benchmark", "src/main.cpp")], ["exit status", "standard output", "files written"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
