#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P, NA, NOTE = [], {}, {}
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
M = "src/modules/"
CL, HL, LL = M + "cross-level/", M + "higher-level/", M + "lower-level/"
NOTEST = "The existing tests only cover allocation helpers and small numeric helpers; nothing here is executed by them, and "

prop("C01", "Quality flags are independent bit fields that read back what was written",
 "Every per-pixel quality word stores each quality flag (no-data, cloud state, shadow, snow, water, aerosol, sub-zero, saturation, high sun zenith, illumination, slope, vapour) in its own bits. Writing one flag with a legal value makes reading that flag return the value and leaves every other flag of that pixel, and every other pixel, unchanged.",
 ["inputs"], "all 65536 quality words, all flags, all legal values, all pixel positions and image sizes",
 NOTEST + "independence of twelve fields over all words and pixel positions is a universal statement.",
 [CL+"quality-cl.c", CL+"quality-cl.h"],
 [("set_qai/get_qai and per-flag wrappers", CL+"quality-cl.c")],
 [("QAI word", "16-bit quality bit field of one pixel", CL+"quality-cl.h")])

prop("C02", "An observation is used iff no user-selected quality flag rejects it",
 "Quality screening of analysis-ready data keeps a pixel of an acquisition if and only if its quality word shows none of the conditions the user asked to screen (each condition, including the aggregate and multi-level ones, acts exactly on its own flag values). Pixels already masked by the processing mask stay excluded, and screening one acquisition or pixel never affects another.",
 ["inputs", "configurations"], "all quality words, all screening configurations, any number of pixels and acquisitions, any mask",
 NOTEST + "the product of 65536 words and 2^16 screening configurations over images of any size cannot be enumerated by tests.",
 [HL+"quality-hl.c"], [("screen_qai / use_this_pixel", HL+"quality-hl.c")])

prop("C03", "Calendar conversions are consistent and invertible",
 "Converting between year/month/day, day of year, week and continuous day counts agrees with one calendar of 365-day years: after a date is set in any of these ways, its month/day, day of year, week, quarter and continuous day count all describe the same day, and conversions there and back return the original day. A later day always gets a larger continuous day count than an earlier one.",
 ["inputs"], "all dates of the 365-day calendar between years 0 and 5000 and all continuous day numbers in that range",
 NOTEST + "agreement for every date needs a proof over the whole calendar.",
 [CL+"date-cl.c"], [("set_date_*, md2doy, doy2md, ymd2ce, ce2doy_year", CL+"date-cl.c")])

prop("C04", "Every processing unit of every tile is processed exactly once and in order",
 "When the higher-level engine streams over a data cube, the reading, computing and writing stages visit the tiles and their chunks in the same order, each tile-chunk exactly once, each stage trailing the previous by exactly one step, until all are done. The tile and chunk numbers announced for a step are always those of that step's position in the sequence.",
 ["histories", "inputs"], "any number of tiles and chunks, every step of the run",
 NOTEST + "the schedule is a property of a whole run for any number of tiles and chunks.",
 [HL+"progress-hl.c"], [("progress / forward_processing_unit / *_pixel chunk arithmetic", HL+"progress-hl.c")])

prop("C05", "Exactly the allow-listed tiles of the requested rectangle are active",
 "Of the tiles in the requested rectangle exactly those named in the allow-list become active, each once; with an empty list every tile of the rectangle does. Tiles outside the rectangle never become active, and a run without any active tile is refused.",
 ["inputs", "configurations"], "allow-lists of any length, rectangles of any size, every tile",
 NOTEST + "membership for arbitrary lists is a universal statement.",
 [CL+"tile-cl.c"], [("tile_allowlisted / tile_active / tile_count", CL+"tile-cl.c")])

prop("C06", "Best-available-pixel composites pick the best eligible observation",
 "For every pixel with at least one eligible observation (valid, and not ruled out by the off-season, haze and cloud-proximity options), the selecting composite takes all its outputs (reflectance of every band, quality, date, sensor, scores) from one single eligible observation whose total score no eligible observation exceeds, while the weighting composite is the score-weighted mean of exactly the eligible observations. The reported count is the number of eligible observations, and without any the pixel is nodata in all outputs and flagged off. Compositing one pixel never changes another pixel.",
 ["inputs"], "any number of pixels, observations and bands, any scores, masks and distances",
 NOTEST + "the winner must be right for every stack of observations.",
 [HL+"bap-hl.c"], [("bap_compositing / bap_weighting", HL+"bap-hl.c")])

prop("C07", "Spectral indices use only valid observations and the right bands",
 "A spectral index is nodata exactly where the pixel is outside the processing mask or the observation is invalid there; elsewhere it is computed from that same pixel's and acquisition's own values of the bands the index is defined on. Computing an index never changes its input data. (Spectral unmixing is not included.)",
 ["inputs"], "any number of pixels and acquisitions, all masks and reflectances",
 NOTEST + "mask and nodata propagation must hold for each pixel/acquisition of any stack.",
 [HL+"index-compute-hl.c", HL+"index-parse-hl.c"], [("index_band, index_differenced, ...", HL+"index-compute-hl.c")])

prop("C08", "Temporal statistics summarise exactly the valid observations",
 "For every pixel, each requested spectral-temporal metric (count, minimum, maximum, range, mean, standard deviation, skewness, kurtosis, quantiles, inter-quartile range) is that of exactly the valid (non-nodata) values of that pixel's own time series. A pixel outside the processing mask or without valid values yields nodata in every statistic.",
 ["inputs"], "time series of any length, any pattern of nodata, any number of pixels",
 NOTEST + "needs quantification over all series and nodata patterns.",
 [HL+"stm-hl.c", CL+"stats-cl.c"], [("tsa_stm, var_recurrence, quantile", HL+"stm-hl.c")])

prop("C09", "Temporal folding aggregates each observation into its own period only",
 "Folding a time series by year, quarter, month, week or day puts a value into a period if and only if it is valid and its acquisition date lies in that period, and the reported aggregate (e.g. minimum or maximum) is that of exactly these values. Periods without valid values, and pixels outside the processing mask, yield nodata.",
 ["inputs"], "series of any length with any dates and nodata pattern",
 NOTEST + "needs quantification over all series and date assignments.",
 [HL+"fold-hl.c"], [("tsa_fold / fold_*", HL+"fold-hl.c")])

prop("C10", "Interpolation keeps valid data and never invents values without support",
 "With interpolation switched off the output series equals the input. With linear interpolation each output step takes over an observation on that date, else lies on the line between the neighbouring valid observations of the pixel, else repeats the nearest one; with the moving average it is the mean of the valid observations within the window. Masked-out pixels and steps without any supporting observation are nodata.",
 ["inputs"], "series of any length, any dates, any nodata pattern, any interpolation step",
 NOTEST + "needs quantification over all series.",
 [HL+"interpolate-hl.c"], [("interpolate_none / interpolate_linear / interpolate_moving", HL+"interpolate-hl.c")])

prop("C11", "Standardisation uses only the valid values of the pixel's own series",
 "Standardising a series or temporal fold keeps nodata as nodata and leaves masked-out pixels and pixels with fewer than two valid values unchanged. Every other valid value becomes its deviation from the mean of that pixel's valid values, divided for normalisation by their standard deviation (result times 10000) and saturated at the 16-bit limits. A series that is not requested is left alone.",
 ["inputs"], "series of any length, any nodata pattern, any mask",
 NOTEST + "needs quantification over all series and pixels.",
 [HL+"standardize-hl.c"], [("tsa_standardize", HL+"standardize-hl.c")])

prop("C12", "A parameter file is accepted iff every parameter is present and in range",
 "Checking a parameter set succeeds if and only if every registered number, date, enumerated or true/false parameter was set, has the required number of values (lists at least one), and every value lies inside its declared legal range or set; one bad value anywhere makes the check fail, and not-a-number is never legal. File and text parameters are outside this property.",
 ["inputs", "configurations"], "any number of registered parameters of any type and length, all values",
 NOTEST + "a universal statement over all parameter sets.",
 [CL+"param-cl.c"], [("check_parameter and check_*_par", CL+"param-cl.c")])

prop("C13", "String utilities never write outside the caller's buffer",
 "Copying, concatenating and replacing text either produces the complete NUL-terminated result inside the destination buffer or reports failure; no byte outside the destination is ever written.",
 ["inputs"], "strings and buffers of every length",
 NOTEST + "memory safety for all lengths is a universal statement.",
 [CL+"string-cl.c"], [("copy_string, concat_string_*, replace_string, overwrite_string_part", CL+"string-cl.c")])

prop("C14", "File names are split into directory, base name and extension correctly",
 "For every path, the extracted directory, base name (with or without extension) and extension are exactly the corresponding parts of the path, so that joining them gives the path back.",
 ["inputs"], "all path strings up to the supported length",
 NOTEST + "a universal statement over strings.",
 [CL+"dir-cl.c"], [("directoryname, basename_with_ext, basename_without_ext, extension", CL+"dir-cl.c")])

prop("C15", "Image values read back what was written; copies keep the description",
 "Writing a whole number that the image's data type can represent (up to 8 million) to a pixel and reading it back returns that number for every supported type, changes no other pixel or band, and the pixel counts as nodata exactly if the number is its band's nodata value. Copying an image gives a new image of the requested type with the same dimensions, georeference, tile and chunk position, names, projection, sensor and output settings, and every band's numeric properties and date (all bands taking those of the first if the number of bands differs).",
 ["inputs"], "all data types, image sizes, bands, positions and values in range",
 NOTEST + "holds for each type/size/position.",
 [CL+"brick_base-cl.c"], [("set_brick/get_brick/is_brick_nodata, copy_brick", CL+"brick_base-cl.c")])

prop("C24", "Removing the processing margin keeps exactly the interior pixels",
 "When the margin that was added around a block for neighbourhood operations is removed from a result, the new image has the interior's size and each of its pixels has, in every band, the value of the old pixel at the same position, for every data type. Nothing is read or written outside the images.",
 ["inputs"], "all data types, image sizes, numbers of bands and margin widths smaller than half the image",
 NOTEST + "must hold for each pixel, size, margin and type.",
 [CL+"brick_base-cl.c"], [("crop_brick", CL+"brick_base-cl.c")])

prop("C16", "The work queue is first-in first-out and never loses or duplicates entries",
 "Elements leave the pixel queue in exactly the order they entered it, unaltered, and none is lost or duplicated. Putting in succeeds unless the queue is full (it holds one element fewer than its buffer size) and taking out succeeds unless it is empty; an operation that fails changes nothing.",
 ["histories"], "every sequence of operations on a queue of any capacity",
 NOTEST + "a property of operation histories.",
 [CL+"queue-cl.c"], [("create_queue, enqueue, dequeue", CL+"queue-cl.c")])

prop("C17", "The Level 2 quality layer marks unusable pixels, and products follow it",
 "With an area of interest, exactly the pixels outside it additionally become nodata in the quality layer and no other flag changes; without one nothing changes. In the final quality layer a nodata pixel carries no other flag while all other pixels keep all their flags, and the haze and water vapour products made along with it are nodata at exactly the pixels that are nodata (water vapour: everywhere if no atmospheric correction is done) and hold the defined value elsewhere.",
 ["inputs"], "images of every size, all quality words and values",
 NOTEST + "must hold for each pixel of each image.",
 [LL+"atmo-ll.c", LL+"cloud-ll.c"], [("compile_l2_qai, apply_aoi", LL+"atmo-ll.c")])

prop("C18", "Raw images: void and saturated pixels flagged, values calibrated per band",
 "On reading a raw image a pixel is flagged nodata exactly if any band but cirrus is void there, and a pixel that is not is flagged saturated exactly if any non-thermal band reaches the saturation value. Conversion to reflectance or brightness temperature gives each band the value of the calibration formula, capped at the largest storable value and never wrapped around; for Landsat, nodata pixels get the nodata value in every band, and a pixel without positive reflectance in some band but cirrus (where 0 is stored) becomes nodata from that band on.",
 ["inputs"], "all digital numbers, calibrations, numbers of bands, image sizes",
 NOTEST + "must hold for each pixel of each image.",
 [LL+"read-ll.c"], [("convert_level1, bounds_level1", LL+"read-ll.c")])

prop("C19", "Cutting an image into tiles moves each pixel to its one right place",
 "When an image is cut into grid tiles, every tile pixel is either the image pixel at the same map position or nodata where the image has none; no image pixel is shifted, duplicated or lost.",
 ["inputs"], "images and tiles of every size and offset",
 NOTEST + "must hold for all geometries.",
 [LL+"cube-ll.c", CL+"tile-cl.c"], [("tile_level2", LL+"cube-ll.c")])

prop("C20", "Helper statistics return what their definition says",
 "Minimum/maximum search, mode, unique values, histogram counting and sorting of a value list return exactly the defined result for every list, and sorting only permutes the list.",
 ["inputs"], "lists of every length and content",
 NOTEST + "a universal statement over lists.",
 [CL+"stats-cl.c", CL+"utils-cl.c"], [("mode, n_uniq, histogram, sort", CL+"stats-cl.c")])

prop("C21", "Only acquisitions matching sensor, date window and product are read",
 "The list of analysis-ready images to process contains an acquisition if and only if its sensor is requested, its date lies within the requested date range and day-of-year window, and its product files exist in the requested kind. The list is ordered by date.",
 ["inputs", "configurations"], "any directory content and any selection",
 NOTEST + "needs quantification over directory contents and configurations.",
 [HL+"read-ard-hl.c"], [("list_ard", HL+"read-ard-hl.c")])

prop("C22", "Table lookups return the matching row or column, or fail",
 "Looking up a row or column of a text table by name returns the position of an entry with exactly that name if there is one and fails otherwise.",
 ["inputs"], "tables of any size",
 NOTEST + "a universal statement over tables.",
 [CL+"table-cl.c"], [("find_table_row, find_table_col", CL+"table-cl.c")])

prop("C23", "Trends use exactly the valid values and need at least three",
 "Trend analysis of a pixel's yearly, quarterly, monthly, weekly or daily folded series gives nodata in every metric if the pixel is masked or has fewer than three valid values. Otherwise the number of values, length, mean, slope, offset, absolute and relative gain, R-squared, RMSE, MAE and largest residual are those of the least-squares line through exactly the valid values over the time of their periods (truncated to whole numbers, where they fit 16 bits).",
 ["inputs"], "series of any length and nodata pattern, images of any size, masked or not, all five folding periods",
 NOTEST + "needs quantification over all series.",
 [HL+"trend-hl.c", CL+"stats-cl.c"], [("tsa_trend", HL+"trend-hl.c"), ("regression recurrences", CL+"stats-cl.c")])

prop("C25", "Change detection reports the greatest decrease and when it happened",
 "Without the noise penalty, change detection on a pixel's folded series reports the greatest decrease from a valid value to the next valid value (where it fits 16 bits), and as its time the period of the later of the two (of the first such pair if several are equal). Every metric is nodata if the pixel is masked or has fewer than two valid values.",
 ["inputs"], "series of any length and nodata pattern, images of any size, masked or not, all five folding periods",
 NOTEST + "needs quantification over all series.",
 [HL+"trend-hl.c"], [("tsa_cat", HL+"trend-hl.c")])

import glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
have = {x for f in glob.glob(V + "/contracts/*.c") for l in re.findall(r"^//@ property:(.*)$", open(f).read(), re.M) for x in l.split()}
P = [p for p in P if p["id"] in have or p["id"] in NA]
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
checks = []
for p in P:
    i = p["id"]
    if i not in have: continue
    checks.append({"property": i, "quick_cmd": "python3 /verif/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + i,
        "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification: contracts on the real functions, verification conditions generated from the GOTO program of the current sources and discharged by an SMT solver",
        "level": "proof", "level_note": NOTE.get(i, "Every obligation (postconditions, memory safety, integer overflow, loop invariants) of the contract units is discharged for all inputs and sizes; floating point is uninterpreted with IEEE-true axioms; assumptions are listed in the evidence file.")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q /verif/gvc || true", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
