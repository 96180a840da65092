#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["src/emva1288/" + f if not f.startswith("doc/") else f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Descriptor blocks are parsed faithfully and completely",
 "Every measurement block of a well-formed descriptor file is present after parsing exactly once: under 'temporal' when it lists two images and under 'spatial' when it lists more, keyed by its exposure time and then its photon count (0.0 for dark blocks; a decimal comma reads as a point), with its image paths in file order, backslash-separated parts joined below the given base path or else the descriptor's own directory. The version and the bits/width/height line are reported as written; blank lines and lines starting with # have no effect.",
 ["inputs"], "every descriptor file made of v/n/b/d/i lines in any order, number and spacing",
 "Tests parse two generated descriptors; neither has decimal commas, comments, blank lines, nested paths, a base path or several kinds interleaved.",
 ["process/parser.py"], [("line dispatch", "ParseEmvaDescriptorFile._fill_info"), ("image series collection with push-back", "ParseEmvaDescriptorFile._get_images_filenames"), ("kind by series length", "ParseEmvaDescriptorFile._get_kind")],
 ["ParseEmvaDescriptorFile(...).images/.format/.version"], [("images", "kind -> exposure -> photons -> paths", "parser.py")])

prop("C02", "Malformed descriptors are refused",
 "Parsing fails with a SyntaxError when a line has fewer than two fields, when an n, b or d line or an i line of a series has the wrong number of fields, when an image series has fewer than two images, when a second n line appears, or when a second series of the same kind repeats an exposure and photon count. A series already read is never replaced or merged, and a line with an unknown command changes nothing in the parsed content.",
 ["inputs"], "every descriptor text, at every line position",
 "No test feeds a malformed descriptor (the error branches are marked 'pragma: no cover').",
 ["process/parser.py"], [("field-count guards", "ParseEmvaDescriptorFile._fill_info/_split_line/_get_images_filenames"), ("duplicate guard", "ParseEmvaDescriptorFile._add_pcount")],
 ["exception from ParseEmvaDescriptorFile"])

prop("C03", "Image reduction is exact and does not clip",
 "For every list of images of any integer pixel type the reduction returns the number of images L, the pixelwise sum of the images, the pseudo-variance L*(L*sum(x^2) - (sum x)^2), and the sum of the mean differences between consecutive images. All pixel arithmetic is done after converting each image to 64-bit integers, and the given images are left unmodified.",
 ["inputs"], "every image list length, pixel value and integer dtype",
 "Tests only see 8-bit simulated images with L=2 and L=50 and never compare the sums with an independent computation.",
 ["process/routines.py"], [("int64 accumulation", "routines.get_int_imgs")], ["get_int_imgs result"])

prop("C04", "The loader files every image series under its own key",
 "Every image series of the descriptor dictionary is loaded once, each path joined to the loader's base path and read with the configured load function and arguments, and its reduction is stored under the same kind, exposure and photon count. Spatial entries keep the reduced images; temporal entries keep the pixel totals of sum and pseudo-variance and the mean difference; the common image height and width are reported.",
 ["inputs", "configurations"], "every images dictionary, load function and base path",
 "Tests load generated datasets with the default loader and base path only, and check a few keys.",
 ["process/loader.py"], [("per-series load and reduce", "LoadImageData._load_data/_get_imgs_data/_load_imgs")], ["LoadImageData(...).data"])

prop("C05", "Incomplete or inconsistent measurement data is refused",
 "Loading fails with ValueError when an exposure has no dark (0.0 photon) series or has fewer than two points or when two images differ in shape, and with IOError when an image file is missing. Building the processing data fails with ValueError when a temporal exposure lacks its dark point or a bright point, or when the spatial data does not consist of exactly one exposure with exactly one dark and one bright point.",
 ["inputs", "fault_sequences"], "every images dictionary and every reduced data dictionary, whichever entry is defective",
 "Tests try one defective dictionary per error, always as the first and only entry; shape mismatch is never tried.",
 ["process/loader.py", "process/data.py"], [("guards before use", "LoadImageData._load_data/_load_imgs, Data1288._get_temporal/_get_spatial")], ["exception type"])

prop("C06", "Temporal data: means, variances and ordering",
 "For every reduced data set, the temporal photon counts, mean values and variances are listed exposure by exposure in increasing order and within an exposure by increasing photon count, dark mean and dark variance once per exposure; mean = sum/(2*pixels) and variance = pvar/(4*pixels) - dmean^2/2, with pixels = width*height unless given. With a single exposure, exposure time, dark mean and dark variance are repeated to one entry per photon count.",
 ["inputs"], "every dictionary of exposures and photon counts, in any insertion order",
 "Tests only compare lengths, on dictionaries that are already sorted, and accept any value.",
 ["process/data.py"], [("sorted traversal", "Data1288._get_temporal"), ("conversion", "Data1288._get_temporal_data")], ["Data1288(...).data['temporal']"])

prop("C07", "Spatial data: stack averages and spatial variances",
 "For the bright and the dark stack alike, the spatial data carries the 64-bit sum image, the number of images L, rows M and columns N, the mean and the sample variance (divisor pixels-1) of the averaged image sum/L, the mean temporal variance pvar/(L^2*(L-1)), and the column and row variances (1/N)*sum((column mean - mean)^2) - var/(L*M) and (1/M)*sum((row mean - mean)^2) - var/(L*N). The dark entries, and only they, carry the suffix _dark; exposure and bright photon count are those of the data set.",
 ["inputs"], "every pair of stacks of any size and count",
 "Tests check key presence, shape and L only; no value is compared with its definition.",
 ["process/data.py"], [("stack statistics", "Data1288._get_spatial_data"), ("bright/dark assignment", "Data1288._get_spatial")], ["Data1288(...).data['spatial']"])

prop("C08", "Responsivity, gain and quantum efficiency follow the standard",
 "The responsivity R and the system gain K are zero-offset least-squares slopes of dark-corrected mean over photon count and of dark-corrected variance over dark-corrected mean, both over the inclusive index range from the sensitivity minimum to the sensitivity maximum. The quantum efficiency is 100*R/K percent and the inverse gain is 1/K.",
 ["inputs"], "every temporal data set",
 "Tests accept QE within 10 percent points and K within 0.1 on two simulated cameras, which hides a wrong fit range or a missing dark correction.",
 ["process/results.py", "process/routines.py"], [("fits", "Results1288.R/K, routines.LinearB0")], ["Results1288.R/K/QE/inverse_K"])

prop("C09", "Saturation point and fit ranges are located as defined",
 "The saturation index is the caller's forced index if one is given, otherwise the index found by scanning the variance backwards from the last point, following it while the point or its predecessor reaches the running maximum and stopping at the first local maximum. The sensitivity range is 0 to the last point with dark-corrected mean <= 70% of its value at saturation; the linearity range is the first point >= 5% to the last point <= 95% of it.",
 ["inputs"], "every temporal data set and forced index",
 "Tests only check that the indices are integers inside the array; forced saturation is never used.",
 ["process/results.py"], [("backward scan and cache", "Results1288.index_u_ysat"), ("thresholds", "Results1288.index_sensitivity_max/index_linearity_min/index_linearity_max")], ["Results1288.index_*"])

prop("C10", "Thresholds, saturation capacity, SNR and dynamic range are consistent",
 "For every result set: u_p_sat is the photon count at the saturation index, u_e_sat = QE*u_p_sat/100, SNR_max = sqrt(u_e_sat) with 20*log10, log2 and 100/x as its dB, bit and inverse forms, u_p_min = (100/QE)*(sigma_y_dark/K + 0.5), u_e_min = QE*u_p_min/100, DR = u_p_sat/u_p_min with 20*log10 as its dB form. Each per-area value is the value divided by the pixel area, or None when no pixel area is given.",
 ["inputs", "configurations"], "every data set, with and without pixel area",
 "Several relations (u_p_min, u_e_min, the other per-area values, sigma_d) are not asserted by any test; the rest only on two data sets.",
 ["process/results.py"], [("defining equations", "Results1288.u_p_min ... DR_dB")], ["Results1288 members of section sensitivity"])

prop("C11", "Dark noise and dark current follow the standard",
 "With more than two distinct exposure times the dark noise is the square root of the zero-exposure intercept of the dark-variance line, otherwise of the first dark variance, floored at 0.24 DN^2; the noise in electrons removes the 1/12 quantization variance and divides by K. With more than two distinct exposure times the dark currents are the slopes of dark mean and of dark variance over exposure time converted from per ns to per s (variance slope divided by K, and NaN if negative), each divided by K in electrons; otherwise they are NaN.",
 ["inputs"], "every temporal data set and number of exposures",
 "Tests accept the dark current within 5-10 units on one simulated camera and check NaN on one two-exposure set.",
 ["process/results.py", "process/routines.py"], [("exposure-count guard and fits", "Results1288.sigma_y_dark/sigma_d/u_I_*, routines.LinearB")], ["Results1288.sigma_*, u_I_*"])

prop("C12", "Linearity is the standard's weighted fit and deviation",
 "The linearity fit minimises the relative squared deviation of the dark-corrected mean from a line in the photon count, over the inclusive linearity range; the relative deviation is reported in percent of the fit for every point. The reported minimum and maximum linearity errors are the extremes of that deviation inside the same range.",
 ["inputs"], "every temporal data set",
 "Tests only check that the errors are floats.",
 ["process/results.py"], [("normal equations", "Results1288.linearity"), ("errors", "Results1288.LE_min/LE_max")], ["Results1288.linearity(), LE_min, LE_max"])

prop("C13", "Spatial variances, DSNU and PRNU follow the standard",
 "For the bright and the dark stack alike the spatial variance is the measured variance minus the temporal stack variance over the number of images, and the row, column and pixel variances solve the standard's equations for the given row/column averages and image size. DSNU values are the square roots of the dark total/row/column/pixel variances divided by K (in DN: not divided), NaN when the variance is negative; PRNU values are 100*sqrt(bright - dark variance)/(bright mean - dark mean) of the same component.",
 ["inputs"], "every spatial data set and image size",
 "Tests re-state part of the code's own expressions on one hand-made set; row, column and pixel parts and PRNU parts are compared with themselves or not at all.",
 ["process/results.py"], [("defining equations, bright/dark siblings", "Results1288.s_2_y* , DSNU1288*, PRNU1288*")], ["Results1288 members of section spatial"])

prop("C14", "Defect-pixel histograms count every valid pixel in the right bin",
 "A histogram of an integer image has equal integer-width bins starting at the minimum, at most the allowed number of bins, together covering every pixel, so the counts sum to the number of unmasked pixels; the model is the normal curve of the same mean, deviation and count. The accumulated histograms count the absolute deviation from the mean at or above each bin in percent of the valid pixels, and all bins are rescaled to one image by the stack counts (and by the filter's factor for PRNU, which uses the 5x5 high-passed difference of the bright and dark averages).",
 ["inputs"], "every image content, value range, mask and stack count",
 "Tests check one synthetic ramp and the presence of keys; masks, differing stack counts, and accumulated values are untested.",
 ["process/routines.py", "process/results.py"], [("binning", "routines.Histogram1288"), ("rescaling and accumulation", "Results1288.histogram_*")], ["Histogram1288, Results1288.histogram_*"])

prop("C15", "Spectrum and high-pass filter compute their definitions",
 "The spectrogram is the mean over image lines of the squared magnitude of the Fourier transform of the mean-free image divided by the line length, divided by n^2 for a sum of n images, from frequency 0 up to and including Nyquist, along the other axis when rotated, with masked pixels removed line by line; the frequencies given for a spectrum are one per entry, from zero in equal steps, at most half the sampling frequency. The high-pass filter returns the image convolved with a kernel of -1 whose centre makes it sum to zero over the (unmasked) neighbours, cropped to the valid area, together with that neighbour count; even sizes and irregular masks raise ValueError; neither changes the given image.",
 ["inputs"], "every image and mask, every even kernel dimension and every odd one from 3 up",
 "Tests check smoothness and one spike on random images, with loose tolerances.",
 ["process/routines.py"], [("definitions", "routines.FFT1288, routines.GetFrecs, routines._row_wise_compress, routines.high_pass_filter")], ["return values"])

prop("C16", "Reading results is repeatable and never alters the data",
 "Every result, histogram and dictionary read from a result object has the same value whichever other results were read before and however often it is read. Building and reading results and drawing plots never modifies the arrays or dictionaries the caller supplied.",
 ["histories", "inputs"], "every sequence of reads, plots and exports on one result object",
 "Tests read each member once, in one order, and never compare the inputs before and after.",
 ["process/results.py", "process/routines.py", "process/data.py", "process/plotting.py"], [("fresh arrays before in-place rescaling; single write-once cache", "Results1288, Data1288, routines, plotting")], ["Results1288 members, Data1288.data"], [("_index_u_ysat", "cached saturation index", "results.py")])

prop("C17", "Every defined result is reported, in its section, with its value",
 "Every result that the standard's naming convention lists and this package computes appears in the results dictionary and the XML export (results with a value also in the printed sections) under its own name and section, with value or data equal to what reading the member gives. Its unit, symbol and short description in the export are those of its documentation block, and array data is exported element by element separated by blanks.",
 ["inputs", "configurations"], "every result member and every result set",
 "Tests look up about thirty names in the dictionary; sections, metadata, XML output and printing are not tested (marked 'pragma: no cover').",
 ["process/results.py", "process/routines.py"], [("docstring registry", "routines.cls_1288_info/obj_to_dict/_sections_first"), ("export", "routines.dict_to_xml, Results1288.xml/results/results_by_section")], ["Results1288.results/results_by_section/xml()"])

prop("C18", "Result files can be read back and compared truthfully",
 "A result export can be read back from a file or from its XML text into the same sections, names (in lower case), numeric values and arrays. Comparing two result files reports OK for an entry exactly when both have it and its values, or all arrays under the same keys, agree after rounding to the significant digits (or both are undefined), reports FAIL otherwise including entries and categories present on one side only, and no internal error is reported as a difference.",
 ["inputs", "fault_sequences"], "every pair of result files, including missing entries, None values and arrays",
 "No test reads XML back or compares files.",
 ["process/routines.py"], [("reader and comparer", "routines.xml_to_dict/compare_xml/round_significant")], ["xml_to_dict, compare_xml"])

prop("C19", "Photon count and radiance conversions are exact inverses",
 "For every exposure, pixel area, f-number and wavelength, the photon count for a radiance is pi*radiance*area*time*wavelength^2/(h*c*(1+(2f)^2)) with nm, ns and um^2 converted to SI, and converting photons to radiance inverts it exactly. The camera's conversions use its own pixel area and wavelengths and default to its current exposure and f-number; the radiance for a (nonzero) target grey value and exposure is the one whose photons give (target/K - thermal electrons of that exposure) electrons spread evenly over the wavelengths at the mean quantum efficiency.",
 ["inputs", "configurations"], "every parameter value and camera configuration",
 "Tests only check that more radiance gives brighter images within wide tolerances.",
 ["camera/routines.py", "camera/camera.py"], [("conversion pair", "camera.routines.get_photons/get_radiance"), ("camera wrappers", "Camera.get_photons/get_radiance_for")], ["get_photons, get_radiance, Camera.get_photons, Camera.get_radiance_for"])

prop("C20", "Simulated images follow the signal chain and stay in range",
 "Every grabbed image has the camera's height and width, only integer values from 0 to 2^bit_depth-1, and a pixel type wide enough for them. It is produced by adding thermal and light-induced Poisson electrons (light scaled by quantum efficiency and PRNU), DSNU and Gaussian electronic noise, clipping to the full well, applying the gain, uniform +-0.5 quantization noise and black offset, then rounding and clipping; a temperature or f-number passed to the grab replaces the environment's.",
 ["inputs", "configurations"], "every radiance, camera parameter and random draw",
 "Tests compare means of a few 8-bit images; saturation, deep bit depths, black offset and overrides are not exercised.",
 ["camera/camera.py"], [("signal chain with final round-clip-cast", "Camera.grab/_u_e/_u_therm/_u_i"), ("type choice", "Camera.__init__")], ["Camera.grab"])

prop("C21", "Gain and black offset always hold an available setting",
 "Whatever value is requested, at construction or later, the camera's gain and black offset become the nearest of the evenly spaced values between their configured limits, and nothing else changes them. The automatic gain and black-offset searches return the first available setting meeting the criterion (temporal noise above 0.5 DN; at most 0.5% zero pixels), else the last, and leave the camera at its previous setting.",
 ["inputs", "histories", "configurations"], "every requested value and every sequence of settings",
 "Tests never set the gain or black offset after construction or check the searches.",
 ["camera/camera.py", "camera/routines.py", "camera/dataset_generator.py"], [("snap-to-nearest setters", "Camera.K/blackoffset, camera.routines.nearest_value"), ("restore after search", "dataset_generator._get_emva_gain/_get_emva_blackoffset")], ["Camera.K, Camera.blackoffset"])

prop("C22", "A seeded camera is reproducible",
 "All randomness of the camera simulator, including bad-pixel placement and dataset generation, is drawn from the camera's own generator, created once from the given seed. Two cameras built and used identically with the same seed therefore give identical images, whatever else uses random numbers in the process.",
 ["histories", "configurations"], "every sequence of calls and every other user of global random state",
 "No test passes a seed.",
 ["camera/camera.py", "camera/bad_images.py", "camera/dataset_generator.py", "camera/points_generator.py", "camera/routines.py"], [("single generator", "Camera.__init__ (_rng)")], ["Camera.grab, bad_pixel, DatasetGenerator"])

prop("C23", "Simulating leaves settings and caller arrays unchanged",
 "Grabbing images and converting between radiance and photons never changes the camera's settings, its quantum efficiency, DSNU or PRNU arrays, or the radiance passed in; building a quantum efficiency with a filter, a camera, or tiles never modifies the arrays passed in.",
 ["histories", "inputs"], "every sequence of grabs and conversions, every array argument",
 "No test grabs twice and compares the camera state or the arguments.",
 ["camera/camera.py", "camera/routines.py"], [("fresh temporaries before in-place arithmetic", "Camera.grab/_u_e, Qe.__init__")], ["Camera attributes, arguments"])

prop("C24", "Generated test points form a complete EMVA series",
 "Without a fixed exposure the points are the requested number of evenly spaced exposures from minimum to maximum (rounded to 0.1 ns), each with the saturation radiance and a dark radiance, the spatial point being the middle one. With a fixed exposure they are that exposure (rounded to whole ns) with the requested number of evenly spaced radiances from the minimum to the maximum (defaults: one step above dark, and saturation) followed by dark, the spatial point being the middle radiance and dark; explicit limits, gain and black reference are honoured.",
 ["inputs", "configurations"], "every step count, limit and camera",
 "Tests only take the first key of the generated points and count them.",
 ["camera/points_generator.py"], [("point construction", "PointsGenerator.__init__/_get_points/_is_point_spatial")], ["PointsGenerator.points"])

prop("C25", "Generated datasets are exactly what the parser reads",
 "Every descriptor line the dataset generator writes is accepted by the parser, and the parsed dataset has one series per generated point with its exposure and mean photon count, two images per temporal point and L per spatial one. Every image named in the descriptor is written once, under a name not used before, at the path the parser derives, with a pixel format that holds the camera's bit depth and the image grabbed for that point at that exposure.",
 ["inputs", "configurations"], "every generator configuration with more than two images per spatial point, a bit depth up to 16 and points that differ in the printed precision",
 "Tests generate a few small 8-bit datasets and check one temporal and one spatial entry.",
 ["camera/dataset_generator.py", "process/parser.py"], [("writer", "DatasetGenerator.run_test/_get_descriptor_line/save_image"), ("reader", "ParseEmvaDescriptorFile")], ["descriptor file, images directory"])

prop("C26", "Plots show every test, with the reported quantities",
 "Every test passed to the plotting object is drawn in every requested plot (all standard plots by default). Each standard plot draws the dark-corrected measured data and the fits, ranges, thresholds and nonuniformities reported by that same test's results, with bright and dark stacks averaged by their own number of images.",
 ["inputs", "histories"], "every list of tests and every result set",
 "Tests only check that the PDF files exist for one test with equal stack counts.",
 ["process/plotting.py"], [("dispatch", "Plotting1288.__init__/plot"), ("curves", "Plot* classes")], ["arguments of the drawing calls"])

prop("C27", "The report only refers to results, plots and fields that exist",
 "Every result, plot and information field the report templates refer to is one the report supplies: a reported result of that section, a plot drawn for every operation point, or a field of the information dictionaries. A result or information field that can be None or undefined (not a number) is printed with the missing-value marker and never breaks rendering; other numbers are printed as they are, with the requested decimals.",
 ["configurations", "inputs"], "every template reference, every combination of missing information and results",
 "Tests render the report once without pixel area and check only that the files exist; undefined fields render silently as empty text.",
 ["report/report.py", "report/templates/report.tex", "report/templates/op.tex", "report/templates/op_header.tex", "report/templates/general_info.tex", "report/templates/emvadatasheet.sty", "process/results.py", "process/plotting.py"], [("template references", "report/templates"), ("filters", "Report1288.template_renderer"), ("plot registry", "plotting.EVMA1288plots")], ["report.tex"])

prop("C28", "Report output is complete, separate per test, and confined",
 "Everything a report writes lies inside its output directory: style and report file, the static files, uploaded copies and one directory per operation point with one file per standard plot, all under the names the report refers to and written anew even over an older report. Operation points are numbered in the order added, hold the sections and plots of their own results (those given, else computed from their data) and never overwrite each other, and the information dictionaries passed in are not modified, so the same ones can be used for further reports.",
 ["histories", "configurations"], "every sequence of reports and operation points sharing information dictionaries",
 "Tests build one report with one operation point and default information.",
 ["report/report.py"], [("paths below the output directory", "Report1288._make_dirs/_write_file/_plots"), ("numbering", "Report1288.add")], ["files written"])

prop("C29", "Each processing stage provides every key the next one reads",
 "Every key that loader, data, results and plotting stages read from the dictionaries they are given is produced by the preceding stage on every successful run, for temporal and spatial data, bright and dark. The one-call wrapper and the shipped examples connect the stages the same way.",
 ["inputs", "programs"], "every key read on any path of any stage, plot or example",
 "Tests run the default pipeline; keys read only by some plots or examples are not covered (examples are not run, except one).",
 ["process/__init__.py", "process/loader.py", "process/data.py", "process/results.py", "process/plotting.py", "doc/examples/extend_plots.py", "doc/examples/grab_and_process.py"], [("stage dictionaries", "LoadImageData, Data1288, Results1288, Plot*")], ["KeyError from a stage"])

prop("C30", "Every library name used exists in the supported libraries",
 "Every module, function, class, method and attribute the package refers to, in its own modules and in the libraries it depends on, exists there, so no code path fails with a missing name; exceptions raised are constructed with valid arguments.",
 ["programs"], "every reference on every path, including those no test runs",
 "Untested paths (XML comparison, error branches) can refer to names that were removed from a dependency; tests never reach them.",
 ["process/routines.py", "process/parser.py", "camera/routines.py"], [("name resolution", "all modules")], ["AttributeError/NameError/TypeError on some path"])

prop("C31", "Files are closed on every path",
 "Every file the package opens is closed on every exit of the operation that opened it, including exceptional ones.",
 ["fault_sequences"], "every open call and every exit path",
 "Leaked handles do not fail a test.",
 ["process/parser.py", "process/routines.py", "camera/dataset_generator.py", "report/report.py"], [("with-blocks", "every open() call")], ["open file handles"])

prop("C32", "Patterns, filters and efficiencies have the requested size",
 "Tiling a pattern and building a colour filter give an array of exactly the requested height and width (and wavelengths), repeating the pattern from the top-left corner, for every size (a tiling one pixel high is a plain row). A quantum efficiency whose shape does not match the image size and wavelengths is refused with ValueError.",
 ["inputs"], "every pattern and image size, including sizes that are not multiples of the pattern",
 "Tests tile constant patterns to three sizes and use even image sizes only.",
 ["camera/routines.py"], [("tiling", "camera.routines.get_tile/array_tile/get_bayer_filter"), ("shape guard", "Qe.__init__")], ["returned arrays, ValueError"])

prop("C33", "Bad-pixel injection places exactly the requested pixels",
 "Injecting bad pixels sets exactly the requested number of distinct pixels of the camera's dark nonuniformity, spread over the whole sensor, to the given fraction of the full well (all of it when None), and leaves every other pixel as it was.",
 ["inputs", "configurations"], "every camera size, count, value and random draw",
 "No test calls it.",
 ["camera/bad_images.py"], [("index choice and write", "bad_images.bad_pixel")], ["Camera.DSNU"])

# properties this family cannot decide
prop("N01", "Simulated cameras are measured back to their configured parameters",
 "Processing a dataset generated by a simulated camera gives back the camera's quantum efficiency, gain, dark current, DSNU and PRNU within the statistical uncertainty of the measurement.",
 ["inputs", "configurations"], "every camera configuration",
 "Tests try two cameras with tolerances chosen by hand.",
 ["camera/camera.py", "process/results.py"], [("whole pipeline", "DatasetGenerator, Results1288")], ["Results1288"])
prop("N02", "Floating-point results are accurate to the compared digits",
 "Every result is within the comparison precision (seven significant digits) of the exact value of its defining expression on the exact integer image data.",
 ["inputs"], "every data set",
 "Tests have no exact reference to compare with.",
 ["process/data.py", "process/results.py", "process/routines.py"], [("integer reduction before floating point", "routines.get_int_imgs")], ["Results1288"])
prop("N03", "Generated reports compile and show the numbers readably",
 "The generated LaTeX sources compile with a standard TeX installation for every report content, and the plots are legible.",
 ["inputs", "configurations"], "every report content, including special characters",
 "Compiling needs TeX, which the test environment does not have.",
 ["report/report.py"], [("templates", "report/templates")], ["PDF"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
