#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json"""
import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, M, IO, IM, U = ("raytools/translate.py", "raytools/mapper/", "raytools/io.py",
                   "raytools/imagetools.py", "raytools/utility.py")
EV, CLI = "raytools/evaluate/", "raytools/cli.py"
VM, MX, MP, SV = (M + "viewmapper.py", M + "angularmixin.py", M + "mapper.py",
                  M + "solidviewmapper.py")

# id, title, statement, over, quantifier, why tests cannot, files, mechanisms
P = []


def p(id, title, statement, over, text, why, files, mech, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique))


p("C01", "HDR images survive a write/read round trip",
  "Writing a gray (x, y) or colour (3, x, y) array as a Radiance image and reading it "
  "back gives every pixel at its place with its value, within the precision of the RGBE "
  "format; a gray image reads as equal channels. Every way of reading (gray, colour, "
  "weighted, with header, from an open stream) shows the same pixels, whatever the shape, "
  "dtype, memory layout, dynamic range or file name, and files written by other programs "
  "(flat or run length encoded, with active EXPOSURE lines) read as the values they hold.",
  ["inputs", "configurations"],
  "all image shapes from 1x1, non negative values up to 1e37, float and integer dtypes, any "
  "memory layout, any legal path (blanks, quotes, unicode), with and without header",
  "the tests read and write a handful of fixed square images; asymmetric shapes, layouts, "
  "extreme values, odd paths and streams are never tried",
  [IO], [("array2hdr/carray2hdr/_array2hdr", IO), ("hdr2array/hdr2carray/_hdr_in", IO)],
  "round trip monitor with an independent RGBE decoder over randomized workloads")
p("C02", "A damaged or missing image is never turned into pixels",
  "Reading an image which is missing, empty, not an image, or cut off at any byte raises "
  "an ordinary exception in every reader and in every function working on image files, "
  "and leaves no output image behind. The image recognition answers yes exactly for files "
  "that start with the full magic bytes, for any file content.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation offset of generated images, missing/empty/foreign/directory inputs, all "
  "readers and file level tools",
  "the tests only try one missing or wrong file; a crash while an image is written can leave "
  "any prefix",
  [IO, IM], [("_hdr_in shape parsing, bytes2np reshape", IO), ("is_hdr, hdr_header", IO)],
  "exhaustive truncation fault injection with an outcome classifier")
p("C03", "Header text survives writing, and header items are looked up by key",
  "Header lines given when an image is written appear in the file literally, completely and "
  "in order, whatever characters they hold, and are read back as the same list of lines "
  "with only the file magic removed. Looking up items gives, for each requested key in "
  "order, the last value of that key regardless of case and of the separator '=' or blank, "
  "and an empty string when it is absent.",
  ["inputs"],
  "header lines with quotes, shell characters, unicode, tabs, key=value; any list of keys",
  "the tests use a few plain lines",
  [IO], [("_array2hdr getinfo call", IO), ("hdr_header", IO), ("header_items", IO)],
  "trace comparison of file bytes and read headers against generated lines")
p("C04", "Cleaning a header keeps the information and never activates entries",
  "Cleaning the header of an image keeps every piece of information of its history "
  "(temporary file names and pvalue steps apart, the latest view stays active), terminates "
  "for any input and keeps lines short by wrapping. It never turns a nested entry (such as "
  "EXPOSURE or COLORCORR of an earlier file) into an active one, so images rewritten with "
  "their cleaned header keep their pixel scale over any number of generations.",
  ["histories", "inputs"],
  "random nested processing histories, long commands, exposure entries, many generations "
  "of rewritten files",
  "the tests compare one fixed header",
  [IO], [("CleanHeader", IO), ("clean_header", IO)],
  "line level monitor over generated processing histories and image generations")
p("C05", "Binary and text array data survive serialization",
  "Arrays written as bytes, to files or streams (overwriting or appending) and read back "
  "with the same dtype and shape are bit for bit the same for every storage dtype, byte "
  "order, memory layout and history of writes. Loading text gives the array of the file "
  "from a str or bytes path, and raises FileNotFoundError, ValueError or TypeError for a "
  "missing file, a malformed file or another kind of argument.",
  ["inputs", "histories"],
  "arrays of any shape, layout and source dtype; little/big endian storage; append histories",
  "the tests write one float array",
  [IO], [("np2bytes, np2bytefile, bytes2np, bytefile2np", IO), ("load_txt", IO)],
  "bit exact comparison with struct packing over write histories")
p("C06", "Colour to luminance conversions agree with each other and with Radiance",
  "Radiance is the weighted sum of channels, luminance is 179 times it, with default or "
  "given weights, for any leading shape and number of channels. RGBE bytes convert to the "
  "luminance of the pixel they encode for every exponent and integer dtype, and Radiance's "
  "gray reading, the weighted colour reading and the byte conversion of the same pixels "
  "agree.",
  ["inputs"], "any leading shape, channel count, weights, dtype; all 256 exponents",
  "the tests convert one or two values",
  [IO], [("rgb2rad, rgb2lum, rgbe2lum", IO), ("hdr2array(vlambda)", IO)],
  "differential monitor: explicit sums and Radiance's pvalue on the same pixels")
p("C07", "The worker cap and the Radiance path follow their documented settings",
  "After any history of setting and removing the process cap (function, environment "
  "variable, command line option) the number of workers is the explicit argument, else the "
  "cap, else the number of processors; non positive values remove the cap, values which "
  "are no int raise ValueError and change nothing. Importing the package puts the current "
  "directory and the package's cal directory first in RAYPATH, keeps the user's entries in "
  "order without duplicates, and doing so again changes nothing.",
  ["histories", "configurations"],
  "random histories of cap operations; RAYPATH settings with duplicates, imports in process "
  "and in fresh processes",
  "the tests set the cap once",
  [IO, "raytools/__init__.py", U, CLI],
  [("get_nproc, set_nproc, unset_nproc", IO), ("set_raypath", "raytools/__init__.py")],
  "history monitor with a one-variable model")
p("C08", "Parallel calls are equivalent to the serial loop",
  "A pool call returns what the serial loop returns: every task runs exactly once with its "
  "own arguments, the fixed and the keyword arguments, results come in the order of the "
  "arguments, whatever the pool kind, cap and completion order. The exception of the first "
  "failing task (in order) is raised, a dead worker process is reported instead of a result "
  "or a hang, and never more process workers run than the cap allows.",
  ["schedules", "fault_sequences", "configurations"],
  "process (fork, forkserver), thread and serial execution, caps, injected delays, failing "
  "tasks, dying workers",
  "the tests call it with one fast function in one schedule",
  [U], [("pool_call", U), ("TStqdm", U)],
  "offline checker over event logs written inside the workers, injected delays and faults")
p("C09", "Shirley-Chiu coordinates map square and sphere one to one, equal in area",
  "Square coordinates map to unit vectors and disk points as the published equal area map "
  "says (u in 0..1 upper, 1..2 lower hemisphere; any axis order) and directions of any "
  "length map back to the same coordinates. The area element is constant everywhere, so "
  "that regular grids sample the disk and the (hemi)sphere uniformly.",
  ["inputs"],
  "all u, v including borders, diagonals and center; directions on axes, poles, equator; "
  "axis permutations; single values and batches",
  "the tests round trip one random grid",
  [T], [("uv2xy, uv2xyz, xyz2uv", T)],
  "reference map, inverse and measured area element as monitors")
p("C10", "uv bins and sky patches partition the square and the sky, as in Radiance",
  "Every coordinate (u<2, v<1) falls in exactly one bin, which contains it; the center and "
  "every other offset of each bin fall in that bin, and all bins have the same size. Sky "
  "patches contain the directions assigned to them, directions below the horizon go to the "
  "ground bins, the neighbours within a tolerance are exactly the patches touched by it, "
  "and the exported .cal expressions evaluated by Radiance agree.",
  ["inputs"], "all bins of any side length, random and bin-border coordinates, tolerances",
  "the tests use one side length",
  [T, "raytools/cal/rayinit.cal"], [("uv2ij, uv2bin, bin2uv", T),
                                    ("xyz2skybin, skybin2xyz, scbinscal, scxyzcal", T)],
  "partition monitors, scalar reference and Radiance's rcalc")
p("C11", "Angular coordinates, fisheye coordinates, chords and angles are consistent",
  "Theta/phi, altitude/azimuth and fisheye coordinates of any direction follow their "
  "definitions and convert back to the same direction, for the poles, the seam, single "
  "vectors and batches; normalization brings phi into one turn without moving the "
  "direction. Chord lengths and angles invert each other, and angles between vectors match "
  "their definition within 0..pi.",
  ["inputs"], "all unit directions including poles, axes and the azimuth seam; phi of any turn",
  "the tests round trip one grid away from the poles",
  [T], [("tpnorm, tp2xyz, xyz2tp, aa2xyz, xyz2aa", T),
        ("xyz2xy, chord2theta, theta2chord, ctheta, radians, degrees, norm", T)],
  "scalar definitions and inverses as monitors")
p("C12", "Rotations and reflections are exact isometries with their documented target",
  "The yaw/pitch matrices of any view direction (straight up and down included, one or "
  "many at once) are rotations that bring the direction to the documented axis; elementary "
  "rotations turn by the given angle about the given axis, in degrees or radians. "
  "Reflections mirror every ray at every normal, and the mask marks exactly the unit "
  "length results.",
  ["inputs"], "random, vertical and nearly vertical vectors, all axes, angles of any size",
  "the tests try few vectors",
  [T], [("rmtx_elem, rotate_elem, rmtx_yp", T), ("reflect", T)],
  "orthogonality, Rodrigues' formula and the mirror formula as monitors")
p("C13", "Resampling and array selection place every value where it belongs",
  "Resampling an array by whole numbers repeats each value (smoothed by the documented "
  "Gaussian when asked) or averages each block, along every axis, and leaves an array of "
  "the same shape unchanged unless a radius is given. Selection by indices, lists, slices "
  "or None along chosen axes gives the same elements as indexing, with all dimensions "
  "kept; an index beyond the axis is an IndexError.",
  ["inputs"], "1 to 3 axes, whole scale factors per axis, every kind of selector",
  "the tests sample few shapes",
  [T], [("resample", T), ("simple_take", T)],
  "explicit repetition, block means and index arithmetic as oracle")
p("C14", "Weighted quantiles and non-uniform smoothing match their definition",
  "Weighted quantiles interpolate the sorted data at the shares of cumulative weight above "
  "the threshold, for any order of data and any quantiles from 0 to 1. The non-uniform "
  "Gaussian filter (and the smooth command) gives at each output position, in the order "
  "asked, the kernel weighted mean, median or quantiles of each feature, for unsorted, "
  "clustered and gapped data. Without values, the smooth command gives the kernel density "
  "of the data (Gaussians of the given bandwidth or Scott's rule, of integral 1).",
  ["inputs", "configurations"],
  "data order, ties of equal weight, gaps, one or several features, given or automatic "
  "bandwidth, output positions",
  "the tests use sorted data with one feature",
  [T, CLI], [("weighted_quantile, weighted_median", T),
             ("non_uniform_gaussian_filter", T), ("smooth command", CLI)],
  "explicit kernel averages and cumulative weight interpolation as oracle")
p("C15", "Culling duplicate directions keeps one representative of every group",
  "After culling, no two kept points lie within the tolerance, every culled point has a "
  "kept point within the tolerance, and the first point in order is the one kept. Arrays "
  "and prebuilt trees give the same mask, and culling twice changes nothing.",
  ["inputs"], "random, clustered, chained, duplicated and gridded sets of any order",
  "the tests use one random set",
  [T], [("cull_vectors", T)], "separation/cover monitor and first-come model")
p("C16", "View mapper coordinates invert each other for every view",
  "For every view direction (straight up and down included), view angle up to 180 or 360 "
  "and history of direction changes: world/view, square, image (equiangular or equisolid) "
  "and pixel coordinates of directions in view convert back to where they came from, all "
  "rays are unit vectors, and angles to the view axis are exact. The view direction is at "
  "the center of square and image, a 360 degree view continues with the opposite "
  "hemisphere in its second half.",
  ["inputs", "histories", "configurations"],
  "view directions on, near and between axes; angles 5 to 180 and 360; resolutions; order of "
  "changes of the mapper",
  "the tests try a few views and resolutions",
  [VM, MX, MP, SV], [("xyz2uv, uv2xyz, xyz2vxy, vxy2xyz", MX),
                     ("pixels, pixelrays, ray2pixel, pixel2ray", MP), ("dxyz setter", VM),
                     ("solid_* coordinates", VM)],
  "inverse and independent fisheye monitors over histories of view changes")
p("C17", "Pixel rays are those Radiance assigns to the view in the image header",
  "The ray of each pixel inside of an angular fisheye image equals the ray Radiance's own "
  "vwrays computes for the view line the mapper writes to the header, including view "
  "point, straight up/down views and both halves of 360 degree images.",
  ["inputs", "configurations"],
  "view directions, 180/360 degree angles and resolutions (narrower views: see known finding)",
  "the tests compare with stored arrays of few views",
  [MX, VM, MP], [("header", MX), ("pixelrays, vxy2xyz", MX)],
  "differential monitor against Radiance vwrays")
p("C18", "View masks, image initialisation and drawing of directions",
  "A direction is in view exactly when its angle to the view axis is below the half view "
  "angle (plus tolerance), as mask or as indices for arrays of any shape; new images have "
  "the size, rays, mask and header of their view and projection. Drawing directions sets "
  "exactly the pixels (channels, neighbourhood, mask) they fall in and nothing else.",
  ["inputs", "configurations"],
  "views, array shapes, tolerances, projections, channels, growth radius",
  "the tests draw into one image",
  [MX, VM, MP], [("in_view, init_img, add_vecs_to_img", MX), ("init_img", VM)],
  "pixel by pixel model and angle monitor")
p("C19", "Solid angles of pixels and views, and the volume of an image",
  "The solid angle of each pixel equals the solid angle between its corner rays, pixel "
  "solid angles in view add up to the solid angle of the view. An image turns into one "
  "unit ray, solid angle and value per pixel, in pixel order, gray, colour or weighted, "
  "using the view of the header unless another mapper is given.",
  ["inputs", "configurations"], "views up to 360 degrees, resolutions, colour modes",
  "the tests check one sum",
  [MX, MP, VM, IM], [("pixel2omega, area", MX), ("hdr2vol", IM)],
  "spherical area and projection integral as oracle, conservation of totals")
p("C20", "Conversion between equisolid and equiangular images follows the projections",
  "Converting an image between equisolid and equiangular projection moves the value at "
  "each position inside of the image circle to the radius of the other projection at the "
  "same azimuth, gray and colour, nearest (only existing values) and linear, in both "
  "directions. Pixels outside of the circle stay empty. Converting forth and back restores a smooth image.",
  ["inputs", "configurations"], "sizes, both directions, interpolation, colour, view angles",
  "the tests check one example loosely",
  [IM, VM, SV], [("array_solid2ang", IM), ("transform_to", VM)],
  "projection formulas as per pixel oracle")
p("C21", "The view in an image header is read back as it was written",
  "For every view line (any direction, view point, option order and number format) the "
  "mapper read from an image has the direction, angle (360 for images twice as wide) and "
  "view point of the last active angular view, which also is the mapper that wrote the "
  "header (with an up vector that is not along the view). Images without such a view give none; view files are read the same way.",
  ["inputs", "histories"], "view lines by the mapper, Radiance tools and hand; competing lines",
  "the tests read one header",
  [IM, MX], [("hdr2vm, vf_to_vm, img_size", IM), ("header", MX)],
  "round trip monitor against generated view lines")
p("C22", "Planar mappers and grid indices are consistent index arithmetic",
  "A planar mapper maps its bounding box to the unit square and back, its frame keeps the "
  "aspect ratio, images drawn with it show points where they are. Grid index to coordinate "
  "to index is the identity for every grid shape, aspect and mapper, with jitter inside "
  "of the cell; pixel jitter stays within its pixel.",
  ["inputs", "configurations"], "bounding boxes, aspect ratios, grid shapes, jitter rates",
  "the tests use one square box",
  [MP, VM], [("idx2uv, uv2idx", MP), ("xyz2uv, uv2xyz, framesize, pixels, init_img", MP)],
  "affine maps and index arithmetic as oracle")
p("C23", "Projection between square and angular images moves every pixel correctly",
  "Each pixel in view of an angular image made from a square image holds the value of the "
  "square pixel its direction falls in, and each pixel of a square image made from an "
  "angular one the value of the image pixel of its direction; gray and colour, 180, 360 "
  "and narrow views. Pixels outside of the view are zero, and a coarse square image "
  "survives the trip through a fine angular image.",
  ["inputs", "configurations"], "sizes, colour, views; images of unique values",
  "the tests check shapes or one image",
  [IM, T], [("array_uv2ang, array_ang2uv", IM), ("uv2ij, bin2uv", T)],
  "published projections evaluated per pixel as oracle on images of unique values")
p("C24", "Rotating and centering angular images is exact geometry",
  "Aligning an image about its view axis, to a center pixel, or from one pixel to another "
  "gives at each pixel the input value at the position the rotation of the view says, for "
  "nearest (only existing values) and linear interpolation, gray and colour. Quarter turns "
  "move whole pixels, full turns and inverse turns are the identity, and the pixel given "
  "as center arrives at the center.",
  ["inputs", "configurations"], "sizes, angles, one and two point centers, orders",
  "the tests rotate one image",
  [IM], [("array_rotate", IM)], "explicit view geometry as per pixel oracle")
p("C25", "Peak normalization conserves energy and touches nothing but the peak",
  "Consolidating the brightest pixels into one source keeps total luminous energy (unless "
  "an expected-energy correction is asked), puts the source in the energy weighted "
  "direction of the collected pixels with the documented area, and leaves every other ray "
  "bit for bit alone; without pixels above the threshold nothing changes. Only pixels above "
  "the threshold and near the peak are collected, gray and colour behave alike, and "
  "secondary sources are found away from the main one.",
  ["inputs", "configurations"],
  "full, partial, blurred, split and missing suns; all options of what is returned",
  "the tests check one sun",
  [IM], [("find_peak, normalize_peak, gather_strays", IM)],
  "energy conservation and identity monitors")
p("C26", "File transforms and commands are the array transforms, applied to files",
  "The image file functions and the commands (as functions or programs, one or several "
  "images, to a file, a given file or stdout) produce the image the array function gives, "
  "name and report the outputs in order, keep the source's header text and never modify "
  "source files or write other files. Input from a pipe (\"-\") gives what the file gives, "
  "and leaves nothing behind, also when the command fails.",
  ["inputs", "configurations", "histories"],
  "names, headers, exposure, options of every transform; function, command, program",
  "the tests run each command once",
  [IM, CLI], [("hdr_uv2ang, hdr_ang2uv, hdr_rotate, hdr_solid2ang", IM),
              ("project, align, solid2ang, cleanheader commands", CLI)],
  "independent decoding of outputs, content hashes of directories")
p("C27", "Metrics of image files and the metric command, end to end",
  "The metrics of an angular image file are the metrics of its pixel rays, solid angles "
  "and luminance (weights given, from the LuminanceRGB header, or default) for the view in "
  "its header, with the peak consolidated when asked. The metric command prints one line "
  "per image in order, with the columns asked, serial or parallel, equal to six digits, "
  "whether its options come from the command line or from a configuration file.",
  ["inputs", "configurations", "schedules"],
  "views, headers, dynamic ranges, metric lists, all options; serial and parallel",
  "the tests compute one image",
  [IM, CLI], [("imgmetric", IM), ("metric command", CLI)],
  "independent reference model of image to metric")
p("C28", "Every metric is its published formula over the rays in view",
  "Each metric of the three metric sets (illuminance, averages, contrasts, DGP and its "
  "terms, UGR, UGP, source, task and background terms, irradiance) equals its documented "
  "formula over the rays in view, for any ray set, threshold (absolute above 100, else a "
  "multiple of the task average), task radius, scale, low light correction, position index "
  "and colour weights. Values come in the order asked; the defining bounds hold.",
  ["inputs", "configurations"],
  "ray sets with, without and only sources, black, single rays; views; all parameters",
  "the tests compare a few stored values",
  [EV + "basemetricset.py", EV + "metricset.py", EV + "colormetricset.py"],
  [("metric properties", EV + "basemetricset.py"), ("metric properties", EV + "metricset.py"),
   ("metric properties", EV + "colormetricset.py")],
  "independent transcription of the formulas over randomized ray sets")
p("C29", "Metrics depend on the light field only",
  "Metrics do not change when rays are reordered, rescaled in length, split into parts of "
  "the same direction, joined by rays behind the view, turned together with the view about "
  "the vertical, or mirrored left to right; without the position index also under any "
  "roll. Luminance and scale factors act as the units they are, light adds up, and "
  "brighter sources are never less glaring.",
  ["inputs"], "metamorphic pairs of random ray sets, views and parameters",
  "single examples cannot show invariance",
  [EV + "basemetricset.py", EV + "metricset.py", EV + "positionindex.py"],
  [("ctheta, pos_idx, omega", EV + "basemetricset.py"),
   ("sources, background", EV + "metricset.py")],
  "metamorphic monitors on pairs of executions")
p("C30", "Metric values do not depend on request order, history or threads",
  "The value of a metric is the same whether asked first, last, again, as property or by "
  "call, from one or several threads, while other objects are in use, or in a process "
  "pool. Default metric lists stay as they are, unknown metric names are refused.",
  ["schedules", "histories"],
  "random interleavings of requests on several objects, threads with injected switches",
  "the tests ask each metric once in one order",
  [EV + "basemetricset.py", EV + "metricset.py", EV + "colormetricset.py"],
  [("functools caching properties", EV + "basemetricset.py")],
  "offline checker over recorded request histories against fresh objects")
p("C31", "Which rays count for a view, and with which solid angle",
  "Exactly the rays inside of the view count. Their solid angles are the given ones, "
  "scaled to the solid angle of the view when normalization is on; a bright source that "
  "straddles the border of a 180 degree view counts with the part of its disk inside of "
  "the view, everything else unchanged, and an empty view gives no light.",
  ["inputs"], "ray sets over the whole sphere, images, too much/too little solid angle",
  "the tests use complete hemispheres",
  [EV + "basemetricset.py", MX], [("__init__, omega setter", EV + "basemetricset.py"),
                                  ("in_view", MX)],
  "explicit view clipping model and conservation of solid angle")
p("C32", "The position index follows Guth, Iwata and Kim for every view",
  "For every view direction the position index of a direction is Guth's above and "
  "Iwata's below the line of sight (1 on the line of sight, at most 16, 16 behind the "
  "view), or Kim's formula when chosen; symmetric left to right and never falling with the "
  "angle along a meridian. Lengths of vectors do not matter.",
  ["inputs"], "views and directions in all octants, on axes, close to them and behind",
  "the tests compare one view",
  [EV + "positionindex.py"], [("positions, positions_vec", EV + "positionindex.py")],
  "independent transcription, symmetry and monotonicity monitors")
p("C33", "The glare sensation score follows its model in every stage and order",
  "Each stage of the glare sensation model (pupil, retinal irradiance, point spread, eye "
  "movements, adaptation, cone, field and ganglion response, pooling) and the score follow "
  "the published equations for any image, age and setting. Scores do not depend on images "
  "or views used before, on parallel or serial execution, on where the view looks; saved "
  "responses and outputs belong to their images, in order.",
  ["inputs", "histories", "schedules", "configurations"],
  "images, sizes, settings; sequences of images on one object; pools",
  "the tests compute one image",
  [EV + "hvsgsm.py"], [("GSS", EV + "hvsgsm.py"), ("gss_compute", EV + "hvsgsm.py")],
  "stage by stage reference, history and pool monitors")
p("C34", "Eye models follow their publications",
  "The point spread function and its inverse, the correction of small bright sources "
  "(never below 1, limited, growing with the peak) and the retinal densities follow their "
  "published equations and data for every position, size and width. Densities are "
  "positive, equal left and right (both eyes), fall with eccentricity along meridians of "
  "the field model, one point at a time or many.",
  ["inputs"], "visual field points incl. fovea, axes and rim; widths, sizes, peaks",
  "the tests compare quantiles of one grid and three values",
  [EV + "retina.py"], [("rgcf_density, rgc_density, binocular_density", EV + "retina.py"),
                       ("hpsf, inv_hpsf, blur_sun", EV + "retina.py")],
  "transcribed equations and data as oracle, symmetry monitors")
p("C35", "Calls have no side effects and repeat",
  "No public function changes its arguments (arrays, lists, mappers), results it returned "
  "earlier, the working directory, environment, numpy error or warning settings, random "
  "state or class attributes, writes or touches files other than its declared output, or "
  "leaves threads, processes or open files behind. The same call later in any history "
  "gives the same result.",
  ["histories", "inputs"],
  "random histories over the public functions of every module, array arguments of any layout",
  "the tests look at return values of single calls",
  [T, IO, IM, MP, VM, MX, EV + "basemetricset.py", EV + "retina.py", EV + "hvsgsm.py", U],
  [("functions of arrays", T), ("np.seterr in vxy2xyz", MX), ("file functions", IM)],
  "state snapshots, audit hooks and replayed calls around every call")

p("C36", "Failed writes and dying helper programs are reported",
  "When an output cannot be written completely (full disk at any byte, full device, missing "
  "directory, a directory as target) or a Radiance program exits with an error, is killed or "
  "is missing at any point, every function and parallel job raises an exception and every "
  "command exits non zero; nothing is passed on as a result, nothing hangs, and no file "
  "stays open. The same call gives its normal result as soon as the fault is gone.",
  ["fault_sequences", "crash_points"],
  "every byte offset of the output of every writer, impossible targets, every way a program "
  "can end, for all readers, writers, commands and pools",
  "the tests only run on a healthy machine",
  [IO, IM, MP, EV + "hvsgsm.py", CLI],
  [("_array2hdr, np2bytefile, hdr_header, _hdr_in", IO), ("hdr2vm, img_size", IM),
   ("plot", MP), ("gss_compute, compute", EV + "hvsgsm.py")],
  "fault injection (file size limits, full devices, stand-in programs) with an outcome "
  "monitor")


def module(id):
    path = os.path.join(V, "rv", "props", id.lower() + ".py")
    import ast
    m = ast.parse(open(path).read())
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in m.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in
         ("LEVEL", "ASSUMPTIONS")}
    return d


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]),
                why_tests_cant=q["why"],
                anchors=dict(files=q["files"],
                             mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                             hook_needed=None))) + "\n")
    checks = []
    for q in P:
        m = module(q["id"])
        cmd = f"python3 check.py {q['id']}"
        checks.append(dict(
            property=q["id"], quick_cmd=cmd, thorough_cmd=cmd,
            evidence_file=f"evidence/{q['id']}.json",
            technique="runtime monitoring: " + q["technique"], level=m["LEVEL"],
            level_note="sampled executions of the real code judged by an oracle; assumes "
            "the oracle in rv/ and the Radiance binaries in /repo"
            + ("; " + "; ".join(m["ASSUMPTIONS"]) if m["ASSUMPTIONS"] else "")))
    man = dict(version=1,
               setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, clasp, click, tqdm'",
               checks=checks, not_applicable=[],
               notes="No hooks in /repo: monitors wrap the public API, worker functions, "
                     "audit hooks and files. See DESIGN.md; known findings in "
                     "known_findings.txt.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
