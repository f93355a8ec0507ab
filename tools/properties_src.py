T = "The tests feed a few textbook data sets (fixed size, unit and orientation) and compare with printed values; the statement quantifies over every real-valued sample, rotation or parameter."
D = "The tests evaluate a handful of parameter values on a grid; the statement is about every argument and every admissible parameter."
def P_(id, title, st, text, files, mech, why=None): p(id, title, st, text, why or T, files, [(m, "%s.py" % files[0] if w is None else w) for m, w in [(x, None) if isinstance(x, str) else x for x in mech]])

P_("C01", "Angle wrapping and unit conversion lose nothing but whole turns",
  "Wrapping an angle returns a value inside the requested half-open interval that differs from the input by a whole number of turns, and leaves angles already inside alone. Converting data to radians and back with the same cycle length is the identity, and rotating data in degrees, hours or radians adds the angle modulo the full cycle in that unit.",
  "every real angle within 4 turns of the origin, every interval, every positive cycle length, scalars and arrays", ["utils"], ["angmod", "data2rad/rad2data", "rotate_data"])
P_("C02", "Angular distances are true distances on the circle",
  "The angular distance between two angles lies in [0, pi], is symmetric, zero only for equal directions, unchanged by common rotation and by adding whole turns, and satisfies the triangle inequality. The signed difference lies in [-pi, pi], is antisymmetric and congruent to the difference of its arguments, and the pairwise forms hold exactly these values for every pair.",
  "all angles within the stated range, all metrics, element-wise and pairwise", ["utils", "descriptive"], ["angular_distance", ("circ_dist/circ_pairdist", "descriptive.py")])
P_("C03", "Membership in an arc is decided by the arc alone",
  "An angle belongs to the arc running counter-clockwise from a lower to an upper bound exactly when walking counter-clockwise from the lower bound reaches it no later than the upper bound. The answer does not change when all three are rotated together or when whole turns are added, also for arcs that cross the zero direction.",
  "every angle and every pair of bounds", ["utils"], ["is_within_circular_range"])
P_("C04", "Mean direction and resultant length obey the laws of vector addition",
  "The resultant length lies in [0, 1], the mean direction in [0, 2pi) points along the vector sum, and the mean is reported undefined exactly when the sum vanishes. Rotating, reflecting, reordering or unwinding the data rotates, reflects or leaves the result; integer weights mean repetition and a common factor in the weights changes nothing. Combining group means and lengths gives the pooled result.",
  "every sample (bounded size), every positive weighting, every rotation", ["descriptive"], ["circ_mean, circ_r, circ_mean_and_r", "compute_C_and_S", "circ_mean_and_r_of_means"])
P_("C05", "Higher moments, dispersion, skewness and kurtosis follow their definitions",
  "The p-th trigonometric moment equals the weighted mean of exp(i p x), about zero or about the mean as requested, and dispersion, skewness and kurtosis equal their defining formulas of the first two moments. All of them are unchanged when the data are rotated or reordered; reflecting the data flips only the sign of the skewness.",
  "every sample (bounded size), order p up to 4, both centrings", ["descriptive"], ["circ_moment", "circ_dispersion", "circ_skewness/circ_kurtosis"])
P_("C06", "Spread statistics are consistent functions of the resultant length",
  "Circular variance equals one minus the resultant length, angular variance twice that, and both standard deviations equal their defining functions of the (bias-corrected) resultant length, decreasing in it. The correction for grouped data multiplies the resultant length by b/(2 sin(b/2)) for bin width b, and none of the statistics depends on rotation.",
  "every resultant length in the admissible range, every sample (bounded size) and every bin width", ["descriptive"], ["circ_var, angular_var, circ_std, angular_std"])
P_("C07", "The circular median minimises angular distance",
  "With the deviation method the median minimises the mean angular distance to the data among the data points; with the counting method the candidates are the data points (or midpoints of neighbouring ones) whose diameter splits the data most evenly, on the side of the data. The median lies in [0, 2pi) and rotates with the data, and reordering the data does not move it.",
  "every sample (bounded size) without ties at the decision", ["descriptive"], ["circ_median", "_circ_median_mean_deviation", "_circ_median_count"])
P_("C08", "Mean deviation is the mean angular distance",
  "The mean deviation of a sample about any reference direction equals the average of the angular distances, lies in [0, pi], and does not change under common rotation. Evaluating it for many references, in blocks or at once, gives the same values to five decimals.",
  "every sample (bounded size), reference and block size", ["descriptive"], ["circ_mean_deviation", "circ_mean_deviation_chuncked"])
P_("C09", "Confidence limits bracket the estimate symmetrically and rotate with the data",
  "The analytic confidence limits for the mean direction lie at equal angles on both sides of the estimate, widen with the confidence level, and rotate with the data. The limits for the median are observed angles enclosing the median, at the ranks given by the binomial rule.",
  "every mean, resultant length, sample size and level for which the formula is defined", ["descriptive"], ["circ_mean_ci", "circ_median_ci"])
P_("C10", "Concentration estimates increase with the resultant length",
  "The estimated concentration is nonnegative and strictly increasing in the resultant length on each branch of the approximation, follows the documented formula on every branch, and the small-sample correction never exceeds the uncorrected value.",
  "every resultant length in (0, 1) and every sample size", ["descriptive", "distributions"], ["circ_kappa", ("_vonmises_A1inv / kappa inversion", "distributions.py")])
P_("C11", "Ranges, quantiles and density estimates match the data on the circle",
  "The circular range is the length of the shortest arc containing all data, quantiles are those of the deviations from the sample median (within half a turn), and the kernel density estimate is nonnegative and rotates with the data. The highest-density interval is the shortest run of samples with the requested mass (rounded down).",
  "every sample (bounded size), rotation and reordering", ["descriptive"], ["circ_range", "circ_quantile", "nonparametric_density_estimation", "compute_hdi"])
P_("C12", "Uniformity tests against one-sided alternatives use the right statistic",
  "The Rayleigh statistic depends only on sample size and resultant length, the V statistic on the component along the hypothesised mean, and the half-circle counts of the omnibus and Batschelet tests equal the defining counts. Rayleigh and omnibus results are unchanged by rotating the data, and V and Batschelet by rotating data and hypothesis together.",
  "every sample (bounded size), every weighting, every hypothesised direction", ["hypothesis"], ["rayleigh_test", "V_test", "one_sample_test", "omnibus_test", "batschelet_test"])
P_("C13", "Goodness-of-fit, range, binomial and symmetry tests follow their definitions",
  "The chi-square test compares observed sector counts with equal expectation, the range test uses the shortest covering arc, the binomial test the split of the data by the hypothesised median, and the symmetry test the signed distances from the median. Statistics and p-values do not change when the data (and the hypothesis) are rotated together or reordered.",
  "every sample (bounded size), counts and rotation", ["hypothesis"], ["chisquare_test", "circ_range_test", "binomial_test", "symmetry_test"])
P_("C14", "Two- and multi-sample tests ignore orientation, order and group labels",
  "Statistics of the tests comparing mean directions or distributions of several samples do not change when all data are rotated together, when observations are reordered, or when groups are exchanged, and equal their defining formulas of group and pooled resultants or circular ranks.",
  "every pair or triple of samples (bounded size)", ["hypothesis"], ["watson_williams_test", "watson_u2_test", "wheeler_watson_test", "wallraff_test", "circ_anova", "angular_randomisation_test"])
P_("C15", "Spacing and empirical-distribution tests are rotation invariant",
  "Kuiper's V, Watson's U-squared and Rao's spacing statistic equal their defining formulas of the ordered sample, are unchanged by rotating or reordering the data and by whole turns, and lie in their admissible ranges.",
  "every sample (bounded size) and rotation", ["hypothesis"], ["kuiper_test", "watson_test", "rao_spacing_test"])
P_("C16", "Homogeneity and change-point tests follow their definitions",
  "The concentration, homogeneity, common-median, two-factor and change-point tests compute their documented statistics from group sizes, resultants and counts, and treat groups symmetrically. Apart from Rao's statistic for directions (a function of tangents), they do not depend on the common orientation of the data.",
  "every set of samples (bounded size)", ["hypothesis"], ["concentration_test", "rao_homogeneity_test", "equal_kappa_test", "common_median_test", "harrison_kanji_test", "change_point_test"])
P_("C17", "p-values are probabilities and significance marks follow them",
  "Every p-value reported by a test lies in [0, 1], and does not increase when the statistic moves further from the null value (up to the accuracy of published approximations). The significance mark is the one whose published threshold interval contains the p-value.",
  "every admissible statistic and sample size", ["hypothesis", "utils"], ["p-value formulas", ("significance_code", "utils.py")])
P_("C18", "Inputs are accepted or refused consistently",
  "Frequency weights mean repetition, unit weights mean no weights, and samples given as lists, arrays or circular objects give the same result. Malformed input (wrong lengths, empty samples, negative weights, inconsistent group counts) is refused with an error rather than producing a number.",
  "every sample and weighting accepted by the public tests", ["hypothesis", "utils"], ["_coerce_circular_samples", "_expand_weights"])
P_("C19", "Circular-circular correlation is bounded, symmetric and rotation invariant",
  "The circular-circular correlation coefficients lie in [-1, 1], are symmetric in their arguments, equal one for a variable with itself, change sign (where signed) when one variable is reflected, and do not change when either variable is rotated. They equal their published definitions.",
  "every paired sample (bounded size) and rotations of each variable", ["correlation"], ["circ_corrcc"])
P_("C20", "Circular-linear correlation is bounded and invariant",
  "The circular-linear association lies in [0, 1], does not change when the angle is rotated or reflected, or when the linear variable is shifted or rescaled, and is the multiple correlation of the linear variable on cosine and sine of the angle; its p-value is the chi-squared tail of n times its square.",
  "every paired sample (bounded size), rotation, shift and scale", ["correlation"], ["circ_corrcl"])
P_("C21", "Circular-circular regression solves the least-squares problem",
  "The fitted trigonometric coefficients satisfy the normal equations for cosine and sine of the response, fitted directions are the angles of the fitted vector in [0, 2pi), residuals are the wrapped differences, and rho is the root mean square length of the fitted vectors. Rotating the response rotates the fit; whole turns of either variable do not matter; the p-values are the tails of the higher-harmonic statistics.",
  "every paired sample (bounded size) of order 1", ["regression"], ["CCRegression"])
P_("C22", "Circular-linear regression likelihood and gradient steps are consistent",
  "The log-likelihood reported equals the von Mises log-likelihood (up to the constant n log 2pi) at the reported coefficients, whether or not the iteration converged, the score vanishes where it stops by convergence, and predictions equal mean direction plus the link applied to the covariates. Rotating the response rotates the fitted mean direction and leaves slope and concentration unchanged.",
  "every sample (bounded size) and parameter value", ["regression"], ["CLRegression"])
P_("C23", "Circular k-means assigns each point to its nearest centre",
  "On convergence every point is assigned to the cluster whose centre is nearest, each centre is the mean direction of its members, and prediction uses the same rule. The reported inertia is the sum of distances of points to their centres, and the reported centres minimise the total of one minus the cosine to their members.",
  "every sample (bounded size), every choice of initial centres", ["clustering"], ["CircKMeans"])
P_("C24", "Agglomerative clustering merges the closest pair and keeps a valid hierarchy",
  "Each step merges the two clusters whose mean directions are at least angular distance, the recorded heights are these distances, sizes add up, and the final labels form a partition into the requested number of clusters. Rotating the data does not change the partition. The silhouette score is the mean of (b-a)/max(a,b) with a the mean distance to the other members of the own cluster and b the least mean distance to another cluster.",
  "every sample (bounded size) and linkage", ["clustering"], ["CircHAC"])
P_("C25", "Mixture responsibilities are probabilities and updates follow the EM equations",
  "Component responsibilities are nonnegative and sum to one for every observation, equal the normalised weighted densities, and predicted labels maximise them. Mixing weights are mean responsibilities, component means are responsibility-weighted mean directions, and the information criterion uses the right parameter count.",
  "every sample (bounded size) and every state of the parameters", ["clustering"], ["MovM", "MoKJ", "MoCD"])
P_("C26", "Data-object summaries equal the underlying functions in every unit",
  "The summary object reports the same mean, median, spread and limits as the stand-alone functions applied to its data in radians, and giving the same directions in degrees, hours or radians gives the same summary. Frequencies are treated as repetition.",
  "every sample (bounded size), unit and grouping", ["base"], ["Circular"])
P_("C27", "Axial data are treated modulo half a turn",
  "For axial data, replacing any observation by its opposite leaves every summary unchanged; results for angle-doubled data are halved back into the axial range.",
  "every sample (bounded size) and every choice of reversed observations", ["base"], ["Axial"])
P_("C28", "Densities obey the laws of their family",
  "Every density is nonnegative, periodic with period 2pi, equal to its published formula, symmetric about its location where the family is symmetric, and rotates with its location. Limiting parameter values give the uniform density, and log-density and density agree.",
  "every argument and every admissible parameter", ["distributions"], ["pdf methods of all families"], D)
P_("C29", "Distribution functions integrate their densities",
  "The distribution functions of the circular uniform, triangular, cardioid, von Mises, Kato-Jones and wrapped stable families are 0 at the start of the support, 1 at its end, and in between equal the integral of the density from 0; the survival function is their complement.",
  "every argument in the support and every admissible parameter", ["distributions"], ["cdf methods"], D)
P_("C30", "Quantile functions invert distribution functions",
  "For the circular uniform and triangular families, whose quantile functions have a closed form, applying the distribution function to a quantile returns the probability, quantiles lie in the support and are nondecreasing (0 and the whole turn for the probabilities 0 and 1, undefined outside [0, 1]), and the survival quantile is the quantile of the complement.",
  "every probability in (0, 1) and every admissible parameter", ["distributions"], ["ppf methods"], D)
P_("C31", "Random variates lie in the support and follow the documented transformation",
  "Every variate of the circular uniform, triangular, wrapped normal, Cartwright and von Mises samplers lies in [0, 2pi), has the requested shape, and is the documented function of the underlying random draws (inverse transform, wrapping, symmetric beta transform); the von Mises rejection sampler accepts exactly when the draw is at most the ratio of the density to its envelope.",
  "every value of the underlying uniform and normal draws and every admissible parameter", ["distributions"], ["rvs methods"], D)
P_("C32", "Distribution summaries equal the moments of the density",
  "Mean direction, resultant length, variance, dispersion, standard deviation, skewness and kurtosis reported by a distribution (also frozen, and in its table of statistics) equal the values implied by its first two trigonometric moments, and the moments equal the integrals of exp(ipx) times the density. The von Mises mean, median, variance, standard deviation and entropy equal the published ones.",
  "every admissible parameter", ["distributions"], ["circ_stats/moments of all families"], D)
P_("C33", "Inadmissible parameters are refused",
  "Every family accepts exactly its published parameter range: inside it the density is a number, outside it density, distribution function and quantile are undefined (never those of a parameter clipped into the range). Location and scale keywords that the circular support does not allow are refused.",
  "every real parameter vector", ["distributions"], ["_argcheck / _validate_params"], D)
P_("C34", "Moment fits recover the parameters from matching moments",
  "Fitting by moments returns parameters whose theoretical mean direction and resultant length equal those of the sample, rotates with the data, and treats weights as repetition.",
  "every sample (bounded size) with positive resultant length", ["distributions"], ["fit methods using moments"], D)
P_("C35", "Plots show the data and summary they are given",
  "The drawn plot places points, mean arrows and arcs at the angles of the data and summary object it is given.",
  "every data object and plot configuration", ["visualization"], ["circ_plot"])
