#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; checked by the setup command)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/qp/"

# id, title, statement, over, quantifier, why tests cannot, files, mechanism, thorough
T = []


def P(pid, title, statement, over, text, why, files, mech, observe=None):
    T.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=w if w.startswith("src") else S + w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}))))


P("P01", "Histogram PDFs: normalised heights, zero outside, cdf is their integral",
  "For a histogram ensemble, whatever the (non-negative) bin values and however unequal the bin widths, each PDF's density is constant in each bin, equals the given value divided by that PDF's total area, and is zero outside the bins. The cumulative distribution is the integral of that density: 0 at and below the first edge, 1 at and above the last, linear within a bin, never decreasing.",
  ["inputs"], "all bin edges (1-5 bins, any widths), all non-negative bin values with positive area, all evaluation points, 1-3 PDFs per ensemble",
  "a test fixes one set of bins (in this repository equal ones) and a few evaluation points; a wrong width, edge or normalisation for another binning is invisible to it",
  ["hist_pdf.py", "utils.py"], [("constructor: normalisation and cumulative table", "hist_pdf.py hist_gen.__init__"), ("bin lookup", "utils.py evaluate_hist_x_multi_y"), ("bin widths", "utils.py bin_widths")])
P("P02", "Interpolated PDFs: unit trapezoid area, linear between points, cdf consistent",
  "For ensembles of PDFs interpolated on a shared grid or on a grid of their own, each PDF's density is the linear interpolation of its values divided by their trapezoid integral, and zero outside its grid. The cumulative distribution at each grid point is the normalised trapezoid sum up to there, linear in between, 0 below the grid, 1 above it, and never decreasing.",
  ["inputs"], "all strictly increasing grids of 2-5 points, all non-negative values with positive area, all evaluation points, 1-3 PDFs",
  "tests use one smooth family of PDFs on an even grid, where a shifted, unnormalised or mis-spaced table changes little; the statement ranges over all grids and values",
  ["interp_pdf.py", "utils.py"], [("normalisation and cumulative table, shared grid", "interp_pdf.py interp_gen"), ("normalisation and cumulative table, own grids", "interp_pdf.py interp_irregular_gen"), ("interpolators", "utils.py interpolate_x_multi_y, interpolate_multi_x_multi_y"), ("normalisation helper", "utils.py normalize_interp1d")])
P("P03", "Mixtures: density and cdf are the normalised weighted sum of the components",
  "For a Gaussian mixture ensemble the density and the cumulative distribution of each PDF at any point are the sums of those of its own components weighted by its own weights, with the weights scaled to sum to one. No component, weight or PDF is mixed up with another, whatever the number of components.",
  ["inputs"], "all means, widths and non-negative weights with positive sum, 1-3 components, 1-3 PDFs, all points",
  "the tests' mixtures have weights that already sum to one and few components; index or normalisation errors show only for other weights and shapes",
  ["mixmod_pdf.py"], [("weighted sum of components", "mixmod_pdf.py mixmod_gen._pdf, _cdf"), ("weight normalisation", "mixmod_pdf.py mixmod_gen.__init__")])
P("P04", "Quantile PDFs: cdf passes through the padded quantiles; densities as documented",
  "For a quantile ensemble the quantiles are completed to 0 and 1 by extending the end pairs along their slopes (and only where they do not reach 0 or 1), and the cumulative distribution passes through every (location, quantile) pair, is 0 below the first and 1 above the last location. The reconstructed density is what its reconstruction promises: piecewise constant gives the quantile step over the location step, piecewise linear the density through the documented points, and none is negative where it is documented not to be; choosing another reconstruction changes the density and nothing else.",
  ["inputs", "configurations"], "all increasing quantiles and locations (2-5), padded or not at either end, every reconstruction, all points, 1-3 PDFs",
  "tests use quantiles of a normal distribution; slopes, ends and reconstructions on asymmetric quantiles are never sampled",
  ["quant_pdf.py", "quantile_pdf_constructors"], [("padding", "quant_pdf.py pad_quantiles"), ("cdf and ppf interpolation", "quant_pdf.py quant_gen._cdf, _ppf"), ("density reconstructions", "quantile_pdf_constructors/*.py")])
P("P05", "ppf inverts cdf for histogram, interpolated and quantile PDFs",
  "For histogram, interpolated (shared or own grids) and quantile ensembles, the inverse cumulative distribution of a probability strictly between 0 and 1 is a point inside the PDF's range at which its cumulative distribution equals that probability, it never decreases with the probability, and where the density is positive it gives back the point from that point's cumulative probability. Probabilities outside [0,1] have no quantile.",
  ["inputs"], "all grids and values with positive area, all probabilities, 1-2 PDFs, flat pieces included",
  "tests invert a handful of probabilities on smooth PDFs; flat or steep pieces and unequal spacings are where the two tables can disagree",
  ["hist_pdf.py", "interp_pdf.py", "quant_pdf.py", "utils.py"], [("inverse tables", "hist_pdf.py hist_gen._ppf; interp_pdf.py interp_gen._ppf, interp_irregular_gen._ppf; quant_pdf.py quant_gen._ppf"), ("interpolators", "utils.py interpolate_multi_x_y, interpolate_multi_x_multi_y")])
P("P06", "Evaluating many PDFs at many points gives the same numbers as one at a time",
  "Whatever the layout of the points (one number, one list for all PDFs, one point per PDF, one list per PDF, any order, repeats), evaluating density, cumulative distribution or inverse of a whole ensemble returns for each PDF and point exactly what the same PDF alone returns at that point, in the broadcast shape. The layout decides which points belong to which PDF, never the values.",
  ["inputs", "configurations"], "all point layouts of 1-4 points for 1-3 PDFs (also arranged in several dimensions), every representation and reconstruction, all points and contents",
  "the fast paths are chosen by the shapes and by the order of the points; tests exercise a few shapes with sorted, distinct points",
  ["utils.py", "pdf_gen.py"], [("choice of evaluation path", "utils.py get_eval_case"), ("fast paths", "utils.py evaluate_*, interpolate_*"), ("row lookup", "pdf_gen.py Pdf_rows_gen")])
P("P07", "Selecting PDFs by index, slice, list or mask selects exactly those PDFs",
  "Selecting from an ensemble by a number, a slice, a list of numbers or a mask gives an ensemble of exactly the selected PDFs, in the order selected, with their data, ancillary rows and the shared metadata, each evaluating as it did in the full ensemble. Selections of selections compose, numbers beyond the last PDF are refused, and the original ensemble is not changed.",
  ["inputs", "histories"], "all integers, slices with steps 1, 2 and -1, index lists with repeats and masks on 3-4 PDFs of every representation, all contents and points",
  "tests pick one or two selections on fixed data and compare shapes or a few values",
  ["ensemble.py", "dict_utils.py"], [("selection", "ensemble.py Ensemble.__getitem__"), ("slicing tables", "dict_utils.py slice_dict")])
P("P08", "Concatenating and appending keeps every PDF, in order, or refuses",
  "Concatenating ensembles, or appending one to another, gives the PDFs of all of them in order, with their data, their behaviour and (when all have them) their ancillary data in the same order; the inputs of a concatenation and the ensemble that was appended are left as they were. Ensembles of different kinds or with different shared data (grids, bins, quantiles) are refused and left unchanged.",
  ["inputs", "histories"], "2-3 ensembles of 1-2 PDFs each, every representation, all contents, all points; shared data that differ at any point by more than the comparison tolerance",
  "tests combine equal ensembles and compare counts; order, ancillary data and refusals depend on the contents",
  ["factory.py", "ensemble.py", "dict_utils.py"], [("concatenate", "factory.py Factory.concatenate"), ("append", "ensemble.py Ensemble.append"), ("metadata comparison and stacking", "dict_utils.py compare_dicts, concatenate_dicts")])
P("P09", "After any history of operations an ensemble equals one built afresh",
  "After any sequence of updates (of all data or of the per-PDF data only), appends, changes of ancillary data, selections and griddings, an ensemble has the data, ancillary data and evaluations of a new ensemble built from the final data: nothing of an earlier state survives, in particular not in the values cached on a grid. Operations whose ancillary data have the wrong length are refused and change nothing, and operations on one ensemble never reach another built from the same data.",
  ["histories", "inputs"], "all sequences of 2-3 (4) operations out of 9 kinds, every representation, 1-2 PDFs, all contents, grids and points",
  "tests run one fixed sequence; stale caches and half-done updates need particular orders",
  ["ensemble.py"], [("updates", "ensemble.py Ensemble.update, update_objdata, append"), ("ancillary data", "ensemble.py Ensemble.set_ancil, add_to_ancil"), ("grid cache", "ensemble.py Ensemble.gridded")])
P("P10", "Written ensembles read back as the same ensembles",
  "An ensemble turned into its tables and back, or written to a file and read back, or written with others into one file and read back by name, is the same ensemble: the same representation, number of PDFs, data, metadata, ancillary data (or none) and evaluations, whether the tables give text back as text or bytes. Writing changes nothing in the ensemble; a file with such tables is recognised, its length and metadata can be read alone.",
  ["inputs", "histories"], "every representation, 1-3 PDFs, all contents, ancillary columns or none, ensembles that were selected, appended or read before, one or several in a file",
  "round trips in tests use one ensemble per kind, without ancillary data, compared by key names",
  ["ensemble.py", "factory.py"], [("tables", "ensemble.py Ensemble.build_tables, write_to"), ("rebuilding", "factory.py Factory.from_tables, read, write_dict, read_dict, _build_data_dict")])
P("P11", "Reading or writing in chunks covers every row once, with its ancillary data",
  "Iterating over a file in chunks, for any chunk size and any number of parallel readers, yields every PDF exactly once across the readers, each chunk with the stated rows' data, metadata and ancillary data, and unaffected by reading on. Writing an ensemble in pieces, by any division of the rows and in any order, gives the file that writing it at once gives, and the space allocated has one column per data column, of the right shape for the number of PDFs asked for.",
  ["inputs", "schedules"], "files of 1-7 PDFs, chunk sizes 1-9, 1-3 readers, divisions into up to 3 pieces in any order, every representation, all contents",
  "tests iterate with one chunk size on one reader; boundaries, short last chunks and reader counts that do not divide are never sampled",
  ["factory.py", "ensemble.py"], [("chunked reading", "factory.py Factory.iterator, data_length"), ("chunked writing", "ensemble.py Ensemble.initializeHdf5Write, writeHdf5Chunk, finalizeHdf5Write"), ("allocation", "*_pdf.py get_allocation_kwds")])
P("P12", "Conversion keeps what the target representation can hold",
  "Converting an ensemble gives, for each PDF: as a histogram, in each bin the source's probability in that bin per unit width (normalised to the bins' range), or the fraction of samples that fall in it; on a grid, the source's density at the grid points, normalised; as quantiles, the locations at which the source reaches them; packed, the density to within half a step; as a mixture or a spline fitted to samples, what is fitted to that PDF's own samples. Both ways of asking agree, the source is unchanged, and converting to what an ensemble already is changes nothing.",
  ["inputs", "configurations"], "sources of any kind and of any values at the points used, 1-2 PDFs, all target grids, bins and quantiles (2-3), samples through the inverse distribution",
  "tests convert smooth PDFs onto fine even grids and compare loosely, so wrong widths, spacings or rows stay within tolerance",
  ["conversion_funcs.py", "factory.py", "ensemble.py", "packed_interp_pdf.py"], [("extraction functions", "conversion_funcs.py extract_*"), ("conversion", "factory.py Factory.convert; ensemble.py Ensemble.convert_to"), ("bin integrals", "pdf_gen.py histogramize")])
P("P13", "Mean, variance and moments are those of each PDF",
  "The mean, variance, standard deviation and raw moments of each PDF of a histogram or gridded ensemble are the sums (bins) or trapezoid integrals (grid values) of powers of the position over the normalised density, whatever the bin widths or grid spacing; parametric ensembles return those of their own parameters. Each PDF gets its own value, also when it is selected or evaluated alone, and the variance and standard deviation follow from the first two moments.",
  ["inputs"], "all bins and grids (1-4 bins, 2-4 points), all non-negative values with positive area, moments 0-4, 1-3 PDFs",
  "tests evaluate moments of smooth PDFs on even grids and compare loosely or only check that a call succeeds; spacing and row errors on other grids are invisible",
  ["hist_pdf.py", "interp_pdf.py", "utils.py", "ensemble.py"], [("moments of bins and grid values", "hist_pdf.py hist_gen._munp; interp_pdf.py interp_gen._munp"), ("moments asked of an ensemble", "ensemble.py Ensemble.moment, mean, var, std, moment_partial")])
P("P14", "Derived quantities agree with density, cumulative distribution and inverse",
  "For every representation the survival function is one minus the cumulative distribution, the inverse survival function and the median and central intervals are the inverse at the matching probabilities, the logarithms are those of the values they stand for, and the integral between two limits is the difference of the cumulative distribution. Binned values are the probabilities of the bins, the mode is the grid point of highest density, gridded values are the density on the grid asked for, and a profile holds the mean and spread of its bins.",
  ["inputs"], "every representation (and any user-defined one), all points, probabilities, limits and bins, 1-3 PDFs",
  "tests call these once on fixed data, often without comparing; wrong ends, signs or rows appear only for other inputs",
  ["ensemble.py", "pdf_gen.py", "utils.py"], [("delegation to the distribution", "ensemble.py Ensemble.sf, isf, interval, median, logpdf, logcdf, logsf, integrate"), ("binning", "pdf_gen.py Pdf_gen histogramize; ensemble.py histogramize"), ("mode and grids", "ensemble.py Ensemble.mode, gridded"), ("profiles", "utils.py profile")])
P("P15", "Samples follow each PDF's own inverse distribution",
  "The samples drawn of each PDF are the inverse of that PDF's cumulative distribution at uniform random numbers, every number used once and none shared between PDFs, in the shape PDFs by samples; parametric ensembles use their own parameters. A seed fixes the samples, and neither the caller's random state nor the distribution's own is changed otherwise than by drawing from it.",
  ["inputs"], "every representation and any inverse distribution, all uniform numbers, 1-3 PDFs and 1-4 samples of each",
  "tests check shapes or moments of samples within wide tolerances; mixed up rows or reused numbers pass",
  ["pdf_gen.py", "ensemble.py"], [("sampling", "pdf_gen.py Pdf_gen rvs, _rvs; ensemble.py Ensemble.rvs"), ("inverse distributions", "*_pdf.py _ppf")])
P("P16", "Nothing handed in is changed, and derived objects stay apart",
  "No operation (creating, evaluating, selecting, combining, converting, storing, comparing with any metric) changes the arrays, dictionaries, lists or ensembles it is given, their order or their entries. Appending to, replacing the data or ancillary data of, or emptying what is returned by one ensemble changes no other ensemble made from the same data, no selection and no concatenation of it.",
  ["inputs", "histories"], "every representation, every operation and each pair of combining and changing operations, all contents; metric and helper functions with all values",
  "tests discard their inputs; a value changed in place is only seen by the caller's next use of it",
  ["ensemble.py", "factory.py", "dict_utils.py", "utils.py", "metrics/array_metrics.py"], [("updates and selections", "ensemble.py Ensemble.__getitem__, append, update_objdata, set_ancil, add_to_ancil"), ("stored tables", "ensemble.py build_tables; factory.py from_tables, write_dict"), ("helpers", "utils.py normalize_interp1d, profile; packing_utils.py")])
P("P17", "Packing densities into bytes loses at most half a step",
  "Packing any rows of non-negative values into bytes and unpacking them returns every value to within half a step of the row's scale (linear: the row's largest value over 255; logarithmic: a factor of half a step of the floor), the largest value exactly, rows independently and order preserved; packing unpacked bytes returns the bytes. A packed ensemble is the interpolation of its unpacked values, and converting to it keeps each density to within that step.",
  ["inputs"], "all rows of 1-3 non-negative values, all bytes, both ways of packing and several floors, 1-2 rows",
  "tests pack one smooth family and compare within a tolerance wider than a step; clipped, truncated or shifted bytes pass",
  ["packing_utils.py", "packed_interp_pdf.py"], [("packing and unpacking", "packing_utils.py linear_*, log_*, pack_array, unpack_array"), ("packed ensembles", "packed_interp_pdf.py packed_interp_gen, extract_and_pack_vals_at_x")])
P("P18", "Sparse indices, dictionary and PDFs belong together",
  "Every coefficient and base index is recovered from its encoded integer to within the coefficient's step, an index decodes to the dictionary column built from the mean, width and shape it stands for, and a sparse ensemble is the normalised interpolation of the weighted sum of its columns. Encoding picks distinct columns, leaves a residual orthogonal to those picked, encodes every PDF as it would be encoded alone, and leaves the dictionary as it was. Converting a gridded ensemble encodes its own densities, interpolated on an even grid from the start of its grid to the last point at which any density is positive.",
  ["inputs"], "all 16-bit coefficients and bases; dictionaries of up to 12 columns, all coefficients, all vectors encoded in up to 3 steps, 1-3 PDFs",
  "the test encodes one smooth sample with one large dictionary and compares loosely; columns out of order or PDFs influencing each other change little there",
  ["sparse_rep.py", "sparse_pdf.py"], [("index coding", "sparse_rep.py combine_int, get_N, decode_sparse_indices, indices2shapes"), ("dictionary", "sparse_rep.py create_voigt_basis, shapes2pdf"), ("pursuit", "sparse_rep.py sparse_basis, build_sparse_representation"), ("ensembles", "sparse_pdf.py sparse_gen")])
P("P19", "Grid metrics are the integrals they name, PDF by PDF",
  "Moment metrics, root mean square differences, Kullback-Leibler divergences and Brier scores of ensembles are, for each PDF or pair of PDFs, the named sums or trapezoid integrals of the densities on the grid that the limits and spacing define. The divergence of a PDF from itself is 0, the difference is symmetric, a true value is credited to the bin that contains it, and inputs outside the limits or of the wrong kind are refused.",
  ["inputs"], "any densities at 2-4 grid points, any limits and spacings, moments 0-3, any true values inside the limits, 1-2 PDFs",
  "tests compare two nearly equal PDFs on one fine grid against loose numbers or stored outputs of the code itself",
  ["metrics/metrics.py", "metrics/array_metrics.py", "metrics/brier.py", "metrics/concrete_metric_classes.py"], [("grid metrics", "metrics/metrics.py calculate_moment, calculate_rmse, calculate_kld, calculate_brier"), ("kernels", "metrics/array_metrics.py quick_moment, quick_rmse, quick_kld"), ("Brier score", "metrics/brier.py Brier"), ("classes", "metrics/concrete_metric_classes.py")])
P("P20", "Metrics accumulated over chunks equal the metric of all the data at once",
  "For metrics that can be accumulated (Brier score, CDE loss, PIT, bias, interquartile spread, outlier rate), accumulating any division of the objects into chunks, in any order, and finalising gives what evaluating everything at once gives. Reading the chunks of a file of any chunk size gives the same.",
  ["inputs", "schedules"], "every division of 1-4 objects into chunks, in order and reversed, all values and truths; digests that keep every value",
  "tests use one division, usually into equal chunks of one kind, so weighting by chunk instead of by object passes",
  ["metrics/concrete_metric_classes.py", "metrics/point_estimate_metric_classes.py", "metrics/base_metric_classes.py", "metrics/brier.py"], [("accumulate and finalize", "metrics/concrete_metric_classes.py BrierMetric, CDELossMetric, PITMetric; metrics/point_estimate_metric_classes.py"), ("sums per chunk", "metrics/brier.py Brier.accumulate")])
P("P21", "Goodness of fit compares each PDF's samples with its own reference",
  "The Kolmogorov-Smirnov, Cramer-von Mises and Anderson-Darling statistics of each PDF are those of that PDF's samples against the cumulative distribution of its own reference (or of the one reference given), in any order of the samples. One value is returned per PDF, and unknown statistics and unmatched numbers of references are reported.",
  ["inputs"], "all samples and all cumulative probabilities at them, 1-3 PDFs, 1-3 samples each, one reference or as many",
  "tests compare stored statistics of random samples of one configuration",
  ["metrics/goodness_of_fit.py", "metrics/metrics.py", "metrics/concrete_metric_classes.py"], [("statistics", "metrics/goodness_of_fit.py goodness_of_fit_metrics"), ("pairing", "metrics/metrics.py calculate_goodness_of_fit")])
P("P22", "PIT values are each PDF's cdf at its own truth; their statistics follow",
  "The probability integral transform of each object is its own PDF's cumulative distribution at its own true value (0 where undefined), and the PIT distribution is the quantile distribution of those values on the evaluation grid (or on an even grid of as many points as objects, with a warning, when there are fewer). The uniformity statistics compare them with a uniform sample after discarding those outside the limits asked for, and the outlier rate is the share of probability outside its limits.",
  ["inputs"], "2-4 objects, any truths, any cumulative probabilities, evaluation grids of 2-6 points, any limits",
  "tests compare stored statistics for one set of normal PDFs; samples paired with another truth keep such statistics plausible",
  ["metrics/pit.py", "metrics/metrics.py", "metrics/array_metrics.py"], [("samples and distribution", "metrics/pit.py PIT"), ("statistics", "metrics/pit.py evaluate_PIT_*; metrics/array_metrics.py quick_anderson_ksamp"), ("outlier rate", "metrics/metrics.py calculate_outlier_rate")])
P("P23", "Point estimate statistics follow their definitions for any objects",
  "For any estimates and true values the statistics are those of the errors scaled by one plus the truth: their median (bias), the scaled interquartile range (sigma), the median absolute deviation, and the share of objects beyond the larger of the fixed cut and three sigma (outlier rate). The order of the objects does not matter, and asking by class or by name makes no difference.",
  ["inputs"], "1-6 estimates and true values, any values, ties, any order",
  "tests compare numbers stored from the code itself for one random sample",
  ["metrics/point_estimate_metric_classes.py", "metrics/factory.py"], [("statistics", "metrics/point_estimate_metric_classes.py PointStatsEz, PointBias, PointSigmaIQR, PointSigmaMAD, PointOutlierRate"), ("lookup by name", "metrics/factory.py")])
P("P24", "Spline PDFs evaluate and integrate their own splines",
  "A spline ensemble's density at any point of its range is the value of that PDF's own spline (its knots, coefficients and degree), and its cumulative distribution is the spline's integral from the start of its range to the point, constant beyond the end. A spline made from values on a grid passes through these values divided by the area under it on that PDF's own grid, so that its cumulative distribution ends at one.",
  ["inputs"], "splines of degree 1-3 with 1-3 pieces over fixed uneven knots (also different ones for each PDF), all coefficients, or all points; any value among 4-6 on fixed uneven grids, 1-3 PDFs",
  "tests compare a few fixed splines within loose tolerances, all PDFs on one grid; a wrong row, start of the integral or normalisation range needs other coefficients and grids",
  ["spline_pdf.py"], [("value and integral", "spline_pdf.py spline_gen._pdf, _cdf"), ("normalisation", "spline_pdf.py normalize_spline, build_normed_splines"), ("knots and coefficients of each row", "spline_pdf.py build_splines")])
P("P25", "Risk-based point estimates minimise each PDF's own risk",
  "The risk-based estimate of each PDF is the point that minimises the integral of that PDF's density times the loss 1 - 1/(1 + (d/0.15)^2), d being the difference between estimate and redshift z divided by 1 + z, taken between that PDF's own 1% and 99% quantiles. Points outside the limits asked for are not considered, there is one estimate for each PDF, in their order, and asking by function or by class makes no difference.",
  ["inputs"], "all density values at 1-3 points, all ranges and limits, any trial points, 1-3 PDFs; scipy's integrator and minimiser replaced by stand-ins",
  "tests compare two ensembles' estimates with stored numbers; the loss, the range of another PDF or a dropped limit change those little",
  ["metrics/array_metrics.py", "metrics/metrics.py", "metrics/concrete_metric_classes.py"], [("risk and its minimisation", "metrics/array_metrics.py quick_rbpe"), ("range of each PDF", "metrics/metrics.py calculate_rbpe"), ("class", "metrics/concrete_metric_classes.py RBPEMetric")])
P("P26", "A plot shows the density of the PDF asked for, on the axes given",
  "Plotting one PDF of an ensemble (by any key) draws one curve: the density of exactly that PDF at evenly spaced points between the limits of the axes, as many as asked for; plotting several draws one curve for each. The native plot of a histogram shows its bin edges and bars as high as the density in each bin, that of interpolated PDFs and splines the density at the PDF's own points, that of quantile PDFs its quantile locations and density; a plot of samples shows the samples given and the density of the PDF. Everything is drawn on the axes given, or on new axes with the limits and labels asked for, and never elsewhere; all other settings reach matplotlib unchanged.",
  ["inputs", "configurations"], "all contents of ensembles of 2-3 PDFs of every representation, all limits of the axes, every key; matplotlib replaced by axes that record what they are given",
  "tests check only that a figure comes back; which PDF, points, heights or axes were used is never compared",
  ["plotting.py", "hist_pdf.py", "interp_pdf.py", "quant_pdf.py", "spline_pdf.py", "packed_interp_pdf.py", "ensemble.py"], [("curves, samples, histograms, quantiles", "plotting.py"), ("native plots", "hist_pdf.py hist_gen.plot_native; interp_pdf.py; quant_pdf.py; spline_pdf.py; packed_interp_pdf.py"), ("choice of the PDF", "ensemble.py Ensemble.plot, plot_native")])
P("P27", "A metric object keeps its settings and nothing of what it evaluated",
  "Every metric is found by its name, says truly what it takes (distributions or points, for estimate and reference) and gives (one value, one for each PDF, or a distribution), and refuses unknown names; metrics users define are found as well. A metric object keeps the settings it was made with, whatever other metrics are made or evaluated, and gives for each data set, the first or a later one, at once or by accumulating and finalising any number of times, what a new object with those settings gives.",
  ["inputs", "histories"], "two data sets of 1-3 PDFs or points of any values given to one object in turn, two settings, accumulating and finalising interleaved; all sixteen names, except the values of the risk-based estimate",
  "the tests use every metric object once, on one data set, so results, grids or settings kept from an earlier use (or shared by all objects of a class) never show",
  ["metrics/factory.py", "metrics/base_metric_classes.py", "metrics/concrete_metric_classes.py", "metrics/point_estimate_metric_classes.py"], [("registry", "metrics/factory.py MetricFactory"), ("metric objects", "metrics/concrete_metric_classes.py; metrics/point_estimate_metric_classes.py"), ("declared types", "metrics/base_metric_classes.py MetricInputType, MetricOutputType, BaseMetric.uses_*")])
P("P28", "Ensembles arranged in several dimensions answer as the same PDFs in a row",
  "An ensemble whose PDFs are arranged in two or more dimensions knows its shape, its number of PDFs and its number of dimensions, and gives for every operation (densities, probabilities, quantiles, medians, modes, moments, probabilities in bins and between limits, gridded values, samples) the values that the same PDFs give in a row, in the shape of the arrangement. This holds for every representation, also when some of the dimensions have length one, for shared evaluation points and for each PDF's own. Samples drawn with the same random numbers are the same.",
  ["inputs"], "2-6 PDFs in two or three dimensions, of every representation, any contents (or one free PDF among fixed ones), one free and one fixed evaluation point",
  "the tests never build an ensemble of more than one dimension",
  ["ensemble.py", "pdf_gen.py", "utils.py"], [("shape, sampling, mode, bins", "ensemble.py Ensemble.shape, rvs, mode, histogramize, moment_partial"), ("frozen distributions of several dimensions", "pdf_gen.py rv_frozen_func, rv_frozen_rows, Pdf_rows_gen._rvs"), ("reshaping and evaluation cases", "utils.py reshape_to_pdf_size, reshape_to_pdf_shape, get_eval_case")])
P("P29", "The units in which points and contents are given make no difference",
  "When everything measured in the units of the points (grids, bin edges, locations, means, widths) is multiplied by a positive factor or shifted, the densities, probabilities, quantiles, medians, samples, moments, probabilities in bins and between limits, gridded values and conversions (their grids changed alike) of every representation are those of the original PDFs in the new units. Contents are relative: multiplying histogram contents, interpolated values, mixture weights or packed maxima by a positive factor changes no density and no probability.",
  ["inputs"], "1-2 PDFs of any contents on 2-3 points (or one free and one fixed PDF), points multiplied by 2^-24 or 2^24 or shifted by 1024 either way, contents multiplied by 2^-30 or 2^30, any evaluation point",
  "tests use a few PDFs of scale one near zero, where absolute thresholds and forgotten widths do not show",
  ["hist_pdf.py", "interp_pdf.py", "quant_pdf.py", "mixmod_pdf.py", "packed_interp_pdf.py", "quantile_pdf_constructors/piecewise_constant.py", "utils.py", "conversion_funcs.py"], [("normalisation", "hist_pdf.py hist_gen.__init__; interp_pdf.py; mixmod_pdf.py"), ("lookup of bins and points", "utils.py get_bin_indices, evaluate_hist_*, interpolate_*"), ("reconstruction of densities from quantiles", "quantile_pdf_constructors/")])
#MORE

NA = []


def N(pid, title, statement, text, files, reason):
    T.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant="tests compare a few fixed cases within loose tolerances",
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=title[:40], where=S + files[0])])))
    NA.append(dict(property=pid, reason=reason))


N("N02", "Files written are valid HDF5, FITS or parquet",
  "Every file written can be read by other tools of its format and holds the tables bit by bit.", "all tables and formats", ["ensemble.py"],
  "byte-level input/output happens in h5py, astropy, pyarrow and tables_io (compiled, outside the repository); P10 and P11 decide the repository's part, with files as tables in memory.")
N("N03", "Fitted Gaussian mixtures approximate the samples",
  "Converting to a mixture fits components that reproduce the source's distribution.", "all sources", ["conversion_funcs.py"],
  "an iterative fit by scikit-learn on random samples: no closed relation to assert, loops whose length depends on the data.")
N("N04", "Sparse fitting picks the best basis functions",
  "Converting to the sparse representation chooses the basis functions which approximate each PDF best at the stated number of terms.", "all PDFs", ["sparse_rep.py"],
  "a statement about the global optimum: the greedy pursuit does not promise it, and how close it comes depends on thousands of Voigt profiles (compiled special functions) at once; the pursuit's own guarantees on small dictionaries are decided by P18.")


def main():
    for d in T:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        assert d["statement"].count(". ") <= 2, d["id"]
    na = {n["property"] for n in NA}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d in T:
            f.write(json.dumps(d) + "\n")
    checks = []
    for d in T:
        if d["id"] in na:
            continue
        checks.append(dict(property=d["id"], quick_cmd=f"./check.py {d['id']} --tier quick", thorough_cmd=f"./check.py {d['id']} --tier thorough",
                           technique="symbolic execution of the real Python code on z3 terms; assertions decided by the solver; counterexamples replayed on the unmodified code",
                           level="model_checking",
                           level_note="every path within the stated bounds (sizes, ranges; see the evidence file) is decided for all real-number values; floating-point rounding, compiled kernels (modelled, checked by replaying each path) and larger sizes are outside"))
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=NA), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(NA), "not applicable")


main()
