#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed
N = []          # stated, not applicable


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=observe or [], hook_needed=None)), technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    N.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)), reason))


HL, LL, CL = "src/modules/higher-level/", "src/modules/lower-level/", "src/modules/cross-level/"

prop("P01", "Results do not depend on the number of threads or their schedule",
     "Processing the same input with any number of threads and any thread schedule produces the same output images. "
     "No work item of a parallel loop reads or writes image cells, accumulators or scratch state that another concurrent item writes, "
     "and no item's result depends on which item the same thread processed before.",
     ["schedules", "inputs"], "all interleavings and thread counts of every parallel loop, all images",
     "The suite runs no parallel kernel; a race needs a particular interleaving to show.",
     [HL, LL, CL], [("data-sharing clauses and reductions of the parallel loops", "all '#pragma omp' regions"),
                    ("per-pixel output addressing", "loops over p in higher- and lower-level kernels")],
     "data-sharing and effect analysis of every OpenMP region (shared stores, cross-iteration element conflicts, loop-carried and uninitialised private state, reduction operators)",
     "Interprocedural effect summaries on the clang AST; linear index forms separate iterations.")

prop("P02", "Quality bits: every flag has its documented place and is never disturbed",
     "Each quality flag of a pixel is stored in and read from exactly the bits documented for it, and setting one flag leaves every other flag of the pixel unchanged. "
     "Merging two observations of a day combines each flag only from the same flag of both observations: a pixel is nodata if both are, warning flags are set if either is, cloud and aerosol state take the higher level. "
     "The inflated quality image carries each flag in the band named after it.",
     ["inputs"], "all 16-bit quality words, all flag values, all pixels",
     "Unit tests try a few words; the guarantee is over all words and all pairs of flags.",
     [CL + "quality-cl.c", CL + "quality-cl.h", "src/main/higher-level/force-qai-inflate.c", "docs/source/howto/qai.rst"],
     [("flag getters and setters", CL + "quality-cl.c"), ("merging of quality words", CL + "quality-cl.c"),
      ("documented bit table", "docs/source/howto/qai.rst")],
     "bit-level abstract interpretation (every bit a boolean function of the inputs) compared with the documented bit table",
     "Exact for the accessor functions; constructs outside the interpreter are reported as undecided.")

prop("P03", "Screening keywords remove exactly the observations they name",
     "For each quality-screening keyword of the higher-level parameter file, an observation is removed if and only if its quality word has the state the documentation gives for this keyword. "
     "With several keywords an observation is removed if and only if at least one of them matches; without keywords nothing but nodata of non-ARD input is removed. "
     "The verdict is stored for the same date and pixel whose quality word was judged.",
     ["configurations", "inputs"], "all subsets of the 18 keywords, all quality words",
     "Tests cannot enumerate 2^18 keyword sets times 2^15 words.",
     [HL + "quality-hl.c", HL + "param-hl.c", CL + "enum-cl.c", CL + "quality-cl.c"],
     [("keyword table", CL + "enum-cl.c"), ("translation of keywords to rules", HL + "param-hl.c"),
      ("pixel verdict", HL + "quality-hl.c")],
     "bit-level abstract interpretation of keyword parsing and of the pixel verdict with symbolic rule switches and quality word",
     "Exact over all words and keyword sets.")

prop("P04", "Screened-out observations never contribute to a product",
     "An observation that was removed by quality screening, by the processing mask or as nodata is never used as a value in any higher-level computation. "
     "Every use of a reflectance or feature value of a date and pixel happens only where the validity of that same date and pixel has been established.",
     ["inputs", "configurations"], "all time series, validity patterns and product selections",
     "A missing validity test only shows for particular patterns of invalid observations.",
     [HL], [("validity mask of each observation", "msk of the observation structure, set in " + HL + "quality-hl.c"),
            ("validity tests in the kernels", HL + "*.c")],
     "must-hold branch-fact dataflow on the CFG (validity of the same observation and pixel dominates each use), followed into callers",
     "Whole-band pointers passed to image filters are not tracked.")

prop("P05", "Gaps in time series are never used as values",
     "A missing value (nodata) in a time series, a folded or interpolated series, or an intermediate image never enters a computation as if it were a measurement. "
     "Wherever an element is used in arithmetic, it is known to differ from the nodata value.",
     ["inputs"], "all series and images, all gap patterns",
     "Only particular gap patterns expose an unguarded use.",
     [HL, CL + "pca-cl.c", LL], [("nodata tests", HL + "*.c")],
     "must-hold branch-fact dataflow on the CFG over all reads of series arrays (closed over calls) and of arrays that a function tests against nodata",
     "Twelve array uses with another gap discipline are listed with a reason in checks/p05.py.")

prop("P06", "Pixels outside the processing mask are nodata in every product",
     "In every higher-level product, each band of a pixel that the processing mask excludes holds the nodata value, not zero and not a computed value. "
     "Every computation that is given a processing mask honours it.",
     ["inputs", "configurations"], "all masks, all product selections",
     "No test runs the higher-level kernels with a mask.",
     [HL], [("per-pixel mask tests", HL + "*.c")],
     "must-hold branch-fact dataflow: arrays written under a set mask versus arrays given nodata under a cleared mask or before",
     "User-defined Python code decides itself what it returns for masked pixels and is exempt.")

prop("P07", "Image kernels never address pixels outside the image",
     "Whenever a pixel or neighbourhood position is turned into an address of an image, its row and column lie inside that image, for every image size, kernel size and pixel position including the image borders. "
     "All addresses into one image use that image's own row length.",
     ["inputs"], "all image sizes, all pixel positions, all kernel offsets",
     "Out-of-range neighbours only occur at borders and non-square images, and often read plausible memory.",
     ["src/modules/"], [("neighbourhood loops", "ni/nj loops of image kernels"), ("sub-image copies", CL + "brick_base-cl.c")],
     "abstract interpretation with linear inequalities over the CFG (inductive loop bounds, branch guards, helpers) of every row*ncols+col address, lifted to callers; row-length consistency per image",
     "Functions whose bounds rest on a documented contract are listed with a reason in checks/p07.py.")

prop("P08", "Processes sharing a datacube never lose or damage each other's output",
     "While a process creates, merges into or appends to a file that other processes may write, it holds that file's lock from before it looks whether the file exists until after the file is closed. "
     "A merge reads and rewrites the image under one and the same lock. "
     "However writing ends, the lock is released, so that no later writer waits for a lock nobody holds.",
     ["schedules", "fault_sequences"], "all interleavings of processes writing to one datacube, all failure points while writing",
     "Tests are single-process and never fail half-way through a write.",
     [CL + "brick_io-cl.cpp", CL + "lock-cl.c", CL + "cube-cl.c", CL + "cite-cl.c", HL + "tasks-hl.c"],
     [("locking of image, provenance, definition and citation files", "lock/unlock calls in these files")],
     "path-sensitive typestate analysis of lock and file handles on the CFG (property simulation), with summaries of wrapping helpers",
     "Abnormal termination by a signal is not covered; sample tables and the EQUI7 dictionary are written without a lock by design.")

prop("P09", "A failed step is never reported as success",
     "Whenever a step of the processing (reading, parsing, allocating, computing, writing) fails, the failure is noticed by whoever asked for the step, and is handed on until the program ends with a non-zero status or the step is explicitly retried another way. "
     "No function returns success, and no program exits with status zero, on a path on which a step it needed has failed or an error has been announced. "
     "Totals that a program reports at its end cover all processing units, not just the last.",
     ["fault_sequences", "inputs"], "every failing operation at every call site, all paths from it to the end of the function and program",
     "Tests exercise the success paths; the failure of each single operation would have to be injected at each call.",
     ["src/"], [("status codes SUCCESS/FAILURE/CANCEL and NULL results", "all functions returning them"),
                ("error counters", "error++ in parallel loops"), ("exit status", "src/main/")],
     "path-sensitive outcome analysis on the CFG (property simulation): result consumption, failure-to-return reachability, error counters, announced errors, overwritten totals",
     "Operations that cannot fail at a call are listed with a reason in checks/p09.py; void functions are judged by their error variables only.")

prop("P10", "Every pixel stays at its place: rows, columns and coordinates agree",
     "Columns go with eastings and rows with northings everywhere: no position, size, offset or bound of one axis is ever used for the other, for any (also non-square) image, chunk and tile. "
     "Counting from an upper-left corner, column and tile numbers grow eastwards and row and tile numbers grow southwards, so that pixel, coordinate, chunk and tile always describe the same place. "
     "A point on the border between two tiles belongs to the tile that starts there.",
     ["inputs", "configurations"], "all image, chunk and tile sizes and origins, all pixel positions and point coordinates",
     "Square test images and default sizes hide exchanged axes; wrong directions give plausible data at a wrong place.",
     ["src/"], [("datacube grid and tile search", CL + "cube-cl.c, " + LL + "cube-ll.c, equi7-ll.c, glance7-ll.c"),
                ("image geometry", CL + "brick_base-cl.c, brick_io-cl.cpp"), ("chunks and neighbours", HL + "read-ard-hl.c, progress-hl.c"),
                ("point sampling", HL + "sample-hl.c")],
     "whole-program type inference of image axis (x/y/linear) and role (grid origin, corner, coordinate, offset) with rules on sums, comparisons, assignments, arguments, direction of counting and tile stepping",
     "Quantities whose axis cannot be inferred are not judged; map projections themselves are done by GDAL.")

prop("P11", "Storage and handles are released exactly once, after their last use",
     "On no path of any run does the program access or hand on a memory block, file or image handle after releasing it, release it a second time, or overwrite the only reference to one it still owns. "
     "An operation that returns without reporting a failure has released, stored or returned everything it acquired for itself. "
     "A table of rows is released with as many rows as it was allocated with, and memory attached to a structure is released somewhere. "
     "A table that grows is resized from the size it has, before an element behind its end is used, and its recorded size follows.",
     ["inputs", "histories", "fault_sequences"], "all paths through every function, including branches for rare data (nothing clear, nothing found, no data in a year)",
     "Leaks and stale pointers show only in long runs or on rare branches; the results of a short test are the same.",
     ["src/"], [("allocation helpers", CL + "alloc-cl.c, string-cl.c, brick_base-cl.c"), ("temporary images", LL + "cloud-ll.c, atmo-ll.c, coreg-ll.c"),
                ("per-year and per-chunk buffers", HL + "cf-improphe-hl.c, l2-improphe-hl.c, read-ard-hl.c"), ("granule tables", LL + "modwvp-ll.c")],
     "interprocedural ownership typestate (acquire, move, view, release) per access path with branch facts, release summaries and must/may release; symbolic comparison of allocated and released row counts",
     "Exits that report a failure and blocks held by structure members are not judged for leaks.")

prop("P12", "Text never overruns its buffer and is never cut silently",
     "No name, path, tag or message is ever written beyond the buffer that holds it, whatever the length of user-given paths, parameter values and file contents, and text that does not fit is reported instead of being cut silently. "
     "Text is terminated before it is used, and fixed positions of a text (digits of a date, parts of a file name) are read only where the text is known to be long enough. "
     "Every value handed to a formatted output has the type its place in the format expects, and option lists for the image library are terminated.",
     ["inputs", "configurations"], "all lengths of paths, file names, parameter values, tags and tokens",
     "Tests use short paths and well-formed values; only lengths around the buffer size or malformed tokens show a difference.",
     ["src/"], [("string helpers", CL + "string-cl.c, dir-cl.c"), ("parameter files", CL + "param-cl.c, " + HL + "param-hl.c, " + LL + "param-ll.c"),
                ("output names and metadata", CL + "brick_io-cl.cpp, brick_base-cl.c"), ("dates and tile lists", CL + "date-cl.c, tile-cl.c")],
     "derived buffer-writer summaries against traced buffer extents (declarations, allocations, callers), typestate for pending truncation and missing terminators, length facts for fixed positions, format/argument type matching",
     "Buffers whose size cannot be traced are listed as undecided in the evidence.")

prop("P13", "Parameter files: what is documented is what is read, stored and tested",
     "For every module, the parameters of the generated parameter file are exactly the ones its program demands, with the documented ranges and keywords, and the suggested values are accepted. "
     "Each parameter takes its value only from the line of its name, converted by its type, and the value reaches the setting it is documented for, unchanged, and has an effect; every keyword stands for the option of its name. "
     "A parameter file in which a parameter is missing, has the wrong number of values, an unknown keyword, a value outside of its range or a path that fails its test is rejected before anything is processed, and no other file is.",
     ["inputs", "configurations"], "all parameter files of all modules",
     "Tests read a few parameter files; a wrong limit, exchanged settings or a keyword out of place show only with particular values of one of 250 parameters.",
     ["src/modules/cross-level/param-cl.c", "src/modules/cross-level/enum-cl.c", "src/modules/aux-level/", HL + "param-hl.c", LL + "param-ll.c"],
     [("reading machinery", CL + "param-cl.c"), ("keywords", CL + "enum-cl.c"), ("registrations", HL + "param-hl.c, " + LL + "param-ll.c, src/modules/aux-level/param-train-aux.c"),
      ("skeletons", "src/modules/aux-level/param-aux.c, src/main/aux-level/force-parameter.c")],
     "conditional constant propagation of the skeleton writers and the registrations per module, value flow of uninterpreted terms through register, parse and test, frozen tables of settings and keywords, use and modification of settings",
     "Limits that depend on other parameters are not compared; the SYNTHMIX module is read by an R script and not analysed.")

prop("P14", "Spectral indices follow their documented formulas",
     "For every pixel and date, the value of a spectral index is the documented formula of the bands it names, evaluated in the observation's reflectances and scaled as documented. "
     "Where an observation is masked, where the formula is undefined (division by zero, root of a negative number) or where the result does not fit the image, the value is nodata, and nowhere else. "
     "Every documented index can be requested, needs exactly the bands of its formula, and its definition names them in the order in which the formula uses them.",
     ["inputs"], "all reflectances of all pixels and dates, all indices and sensors",
     "The formulas hold for all combinations of up to 6 reflectances; tests sample none of the 31 indices.",
     [HL + "index-compute-hl.c", HL + "index-parse-hl.c", "misc/runtime-data/indices.json"],
     [("selection and formulas", HL + "index-compute-hl.c tsa_spectral_index"), ("bands of an index", "misc/runtime-data/indices.json")],
     "algebraic value numbering: the stores of each index are normalised to quotients of polynomials over the input bands with the conditions under which they are reached, and compared with a frozen table of formulas",
     "The spectral mixture analysis is an iterative least squares solution and not decided; rounding is not judged.")

prop("P15", "Spectral bands keep their identity from Level 1 to the products",
     "Every Level 1 band of a sensor is imported under its documented name and processed with the spectral response, tables and coefficients of this band and sensor. "
     "In the higher-level modules, the band that is read for a name is the one that carries this name in the products of the sensor, and a band is treated as common to several sensors only when all of them have it. "
     "Wherever a band is looked up by name, the band of this very name is used.",
     ["inputs", "configurations"], "all sensors, combinations of sensors and bands",
     "An exchanged band yields plausible images; tests have no image of most sensors.",
     [LL + "meta-ll.c", LL + "table-ll.c", LL + "brdf-ll.c", HL + "sensor-hl.c", HL + "read-ard-hl.c", CL + "brick_base-cl.c", "misc/runtime-data/sensors"],
     [("Level 1 lists", LL + "meta-ll.c"), ("spectral responses", LL + "table-ll.c"), ("sensor definitions", "misc/runtime-data/sensors/*.json, " + HL + "sensor-hl.c"), ("lookup", CL + "brick_base-cl.c find_domain")],
     "symbolic offsets of the stores that build the band lists, centroids of the constant response tables against frozen tables of wavelengths and sensor products, value flow of band names to variables, monotone flags",
     "Band lists that are not built by stores at constant offsets are not judged.")

prop("P16", "Higher-level products are the requested ones, with the bands they name",
     "A higher-level module writes a product if and only if its parameters request it, and prepares every product another requested product is derived from. "
     "Each product is written under its own product name and has as many bands as it has layers, and what is computed for a product goes into this product. "
     "The name, date, unit and sensor of a band are those of the layer the band holds.",
     ["configurations", "inputs"], "all combinations of requested products",
     "There are some 170 products and any subset can be requested; an exchanged destination or switch only shows for some subsets and yields plausible files.",
     [HL + "tsa-hl.c", HL + "level3-hl.c", HL + "lsm-hl.c", HL + "texture-hl.c", HL + "ml-hl.c", HL + "cso-hl.c", HL + "udf-hl.c", HL + "lib-hl.c", HL + "cf-improphe-hl.c", HL + "l2-improphe-hl.c", HL + "param-hl.c", CL + "enum-cl.c"],
     [("product tables", HL + "*-hl.c compile_*"), ("metric positions", HL + "param-hl.c parse_sta"), ("names of numbered layers", CL + "enum-cl.c")],
     "algebraic value numbering of the functions that build the products, with all settings as terms, against a frozen table of product, switches, length, destination, file and band metadata",
     "The clear-sky module is judged only for the names of its metrics; texts that depend on unknown values are not judged.")

prop("P17", "Temporal statistics are what their names say, over the valid observations",
     "For every pixel, each spectral temporal metric, fold, trend parameter (also before and after the largest change) and standardised series is the statistic it is named after, computed over exactly the values of the time series that are not nodata and, for folds, belong to the period. "
     "A statistic is nodata if and only if the pixel is masked or has too few valid values for it. "
     "Moments and quantiles anywhere are taken with the number of values that went into them.",
     ["inputs", "configurations"], "all time series, patterns of missing values, periods and requested statistics",
     "The results are plausible numbers for almost any mistake (a wrong moment, a value counted although it is missing, another period), and tests would have to sample every metric with gaps at the right place.",
     [HL + "stm-hl.c", HL + "fold-hl.c", HL + "trend-hl.c", HL + "standardize-hl.c", HL + "cso-hl.c", CL + "stats-cl.c"],
     [("temporal metrics", HL + "stm-hl.c tsa_stm"), ("folds", HL + "fold-hl.c tsa_fold"), ("trends", HL + "trend-hl.c tsa_trend, tsa_cat"), ("standardisation", HL + "standardize-hl.c tsa_standardize"), ("moments", CL + "stats-cl.c")],
     "algebraic value numbering; values that survive a loop iteration are recognised by induction as count, moment, extreme or sum of the series, and what is stored is compared with the defining formula",
     "Decided over the real numbers; the critical value of the t-test, the selection of the largest change and the clear-sky intervals (except their counts) are not decided.")

prop("P18", "Dates keep their meaning, and exactly the requested period is processed",
     "All parts of a date (year, month, day, day of year, week, quarter, day count) always describe the same day, and converting between them gives the day of the 365-day calendar, for every day. "
     "An image in the data cube is used if and only if it is of the requested product and a requested sensor, its date lies in the requested date range (both ends included) and on a requested day of the year, which may wrap around the year's end or be a single day. "
     "The marked weeks, months, quarters and years, the interpolation steps and the observation windows cover exactly that period, neither a day less nor more.",
     ["inputs", "configurations"], "all dates, date ranges, day-of-year ranges, sensors, step widths",
     "Errors sit at single days (a month's last day, December 31, the first or last day of a range), where the result is a plausible other date or silently lacks an image.",
     [CL + "date-cl.c", CL + "datesys-cl.c", HL + "read-ard-hl.c", HL + "param-hl.c", HL + "tsa-hl.c", HL + "cso-hl.c", LL + "meta-ll.c"],
     [("conversions", CL + "date-cl.c doy2md, md2doy, doy2week, ce2doy, ..."), ("dates", CL + "date-cl.c set_date, set_date_ce, copy_date, date_from_string; " + LL + "meta-ll.c"), ("images", HL + "read-ard-hl.c list_ard"), ("period", HL + "param-hl.c parse_param_higher"), ("steps and windows", HL + "tsa-hl.c, " + HL + "cso-hl.c")],
     "algebraic value numbering of the date functions (constant propagation with guards), compared with the calendar over its whole finite domain; guards under which an image is taken or left are compared with the requested period",
     "February 29 counts as March 1, as documented. Times of day, near-real-time dates and dates of which only single fields are set are not decided.")

prop("P19", "Composites show the best available observations",
     "An observation takes part in a best-available-pixel composite if and only if it is valid and the settings on the off-season, haze and clouds allow for it; its scores are the documented functions of its distances to the target date of the nearest target year, to clouds, haze, correlation and view angle, combined with the weights given. "
     "For every pixel, the composite and all bands of the score and information products describe the one observation with the highest total score of those that take part (or the score-weighted mean of all of them), and are nodata if and only if no observation takes part. "
     "Nothing of a pixel's result stems from another pixel, and only requested products are written.",
     ["inputs", "configurations"], "all scores, weights, settings, target dates and numbers of observations",
     "A wrong condition or score selects another plausible observation; only a comparison over all combinations of settings and scores shows it.",
     [HL + "bap-hl.c", HL + "level3-hl.c"],
     [("scores", HL + "bap-hl.c parametric_score"), ("selection", HL + "bap-hl.c bap_compositing, bap_weighting, haze_stats"), ("target dates", HL + "bap-hl.c compile_target_static, target_function"), ("order of the steps", HL + "level3-hl.c level3")],
     "algebraic value numbering of the compositing functions; loops are recognised by induction (argmax, count, weighted sum), admission conditions are compared as truth tables over settings and scores",
     "The numerical fit of the scoring function and the regression of phenology on years are not decided.")

na("X01", "Surface reflectance is physically accurate",
   "For every Level 1 image, sun and view geometry and atmosphere, the bottom-of-atmosphere reflectance deviates from the true surface reflectance by no more than the published uncertainty. Cloud, shadow and snow masks reach the published accuracies.",
   ["inputs"], "all scenes, atmospheres and terrains",
   "Validation needs reference measurements.",
   [LL + "atmo-ll.c", LL + "aod-ll.c", LL + "topo-ll.c", LL + "cloud-ll.c"], [("radiative transfer", LL + "atmo-ll.c")],
   "the accuracy of an empirical physical model relates program values to the real world; there is no reference in the source a static argument could compare with")
na("X02", "Co-registration finds the true shift",
   "For every pair of images, the shift found by the co-registration brings both into agreement within the sub-pixel accuracy, or the image is rejected.",
   ["inputs"], "all image pairs",
   "Depends on image content.",
   [LL + "coreg-ll.c"], [("matching", LL + "coreg-ll.c")],
   "whether an iterative numerical matching converges to the true shift depends on the image contents; no static argument in reach bounds it")
na("X03", "Predictions are those of the trained model",
   "For every pixel, the predicted class, probability or regression value is the one the trained model gives for the pixel's features in the library that trained it.",
   ["inputs", "configurations"], "all models and features",
   "Model evaluation takes place in an external library.",
   [HL + "ml-hl.c"], [("prediction", HL + "ml-hl.c")],
   "models are data and are evaluated inside of the OpenCV library, which is not part of the source analysed")
na("X04", "Processing ends in bounded time and memory",
   "Every run ends within a time and memory that grow at most proportionally with the number of pixels, dates and features.",
   ["inputs", "configurations", "schedules"], "all inputs",
   "Quantitative resource bounds depend on data and machine.",
   [HL + "tasks-hl.c", HL + "progress-hl.c"], [("blocks of work", HL + "progress-hl.c")],
   "iterative fits (kernel fits, co-registration, optimisation) have data-dependent iteration counts which no static argument in reach bounds")

# -- more properties are appended below ----------------------------------------------------


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in [x[0] for x in P] + [x[0] for x in N]:
            fh.write(json.dumps(p) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    man = {
        "version": 1,
        "setup_cmd": "python3 tool/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "static analysis: " + t,
            "level": "other", "level_note": n} for p, t, n in P],
        "not_applicable": [{"property": p["id"], "reason": r} for p, r in N],
        "notes": "Every check extracts the type-checked program of /repo's working tree with a clang plugin and decides "
                 "the property from it; nothing of /repo is executed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    sys.exit(main())
