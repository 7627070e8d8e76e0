#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))

MODEL = ["src/ctsa.c", "src/emle.c", "src/boxjenkins.c", "src/initest.c", "src/autoutils.c", "src/talg.c"]

prop("C01", "Time-series modelling API is free of memory errors and undefined behaviour",
 "For every finite series and every valid model configuration (orders, period, regressors, method, optimiser, options), the init / set / exec / predict / vcov / summary / free calls of the AR, ARIMA, SARIMA, SARIMAX and Auto-ARIMA objects, the AR/ACF/PACF estimators, the unit-root and seasonality tests and the decompositions never read or write outside the memory they own or were given, never use freed memory and never execute undefined behaviour. They always return to the caller, within a bounded amount of work, instead of crashing, aborting or ending the process.",
 ["inputs", "configurations", "histories"], "all finite series lengths/values, all valid order/option combinations, all call sequences on an object",
 "The 14 test programs run one dataset each through one configuration without instrumentation; an overread of a neighbouring heap word passes unnoticed.",
 MODEL + ["src/unitroot.c", "src/seastest.c", "src/stl.c", "src/regression.c", "src/optimc.c"],
 [("params[] layout of the model objects", "src/ctsa.c *_init"), ("workspace sizing", "src/emle.c *_init, src/ctsa.c *_predict")],
 ["AddressSanitizer/UBSan reports and process termination during the modelling workloads"])

prop("C02", "Numerical toolbox is free of memory errors and undefined behaviour",
 "For every valid input size and option, the wavelet, FFT/convolution/spectrum, matrix, least-squares/regression, polynomial-root, distribution, optimisation, filtering and error-metric routines never access memory outside their arguments and workspaces, never use freed memory, never execute undefined behaviour and always return to the caller.",
 ["inputs", "configurations"], "all valid sizes (odd, even, prime, power of two, minimal), all option strings and filters",
 "Only misctests and dwttests touch these routines, with a handful of fixed sizes and no instrumentation.",
 ["src/wavelib.c", "src/wtmath.c", "src/wavefilt.c", "src/hsfft.c", "src/conv.c", "src/matrix.c", "src/lls.c", "src/regression.c", "src/polyroot.c", "src/pdist.c", "src/dist.c", "src/optimc.c", "src/newtonmin.c", "src/secant.c", "src/nls.c", "src/filter.c", "src/errors.c"],
 [("index arithmetic of strided transforms and workspaces", "src/wtmath.c, src/hsfft.c, src/matrix.c")],
 ["AddressSanitizer/UBSan reports and process termination during the toolbox workloads"])

prop("C03", "Results are a pure function of the arguments",
 "Every computed result depends only on the values passed in and the options set on the object: never on uninitialised memory, on leftover heap contents, on what was computed before, or on other objects being alive. Executing the same call twice (on a fresh object or again on the same object) gives bit-identical results.",
 ["inputs", "histories"], "all inputs, all preceding call histories and heap states",
 "Tests run each computation once in a fresh process, so a stale or uninitialised read is invisible unless it crashes.",
 MODEL + ["src/wavelib.c", "src/hsfft.c", "src/regression.c", "src/optimc.c"],
 [("initialisation of object fields and workspaces", "src/ctsa.c *_init; src/emle.c; src/optimc.c")],
 ["MemorySanitizer reports; bitwise comparison of replayed calls under different heap fill patterns and histories"])

prop("C04", "Objects and calls release every byte they allocate",
 "A complete life cycle (init, any number of exec / predict / transform / summary calls, free) and every plain function call returns the heap to the state it found: nothing is leaked and nothing is freed twice, on success and on reported-failure paths alike.",
 ["inputs", "histories", "configurations"], "all life cycles over all objects, including failing fits and early-return paths",
 "No test counts allocations; long-running services that refit models would exhaust memory.",
 MODEL + ["src/wavelib.c", "src/optimc.c", "src/regression.c", "src/seastest.c", "src/unitroot.c"],
 [("paired malloc/free in each routine; *_free functions", "src/*.c")],
 ["allocation ledger (malloc/free interposer) balanced at the quiescent point after each life cycle"])

prop("C05", "Inputs are read-only and outputs stay inside their documented extent",
 "No fit, forecast, test, transform or estimator modifies the series, regressors, coefficients or other input arrays it is given, and each writes exactly the documented number of output values and nothing beyond them.",
 ["inputs", "configurations"], "all inputs and configurations of the entry points that take const-like inputs and caller-sized outputs",
 "Tests never compare the inputs after a call and allocate generous output buffers.",
 MODEL + ["src/stats.c", "src/unitroot.c", "src/seastest.c", "src/wavelib.c", "src/filter.c", "src/boxcox.c"],
 [("copy-in of caller data", "src/emle.c, src/ctsa.c, src/wavelib.c")],
 ["snapshot and guard words around every caller-owned array"])

prop("C06", "Independent objects can be used concurrently",
 "Threads that each work on their own objects and buffers never race with one another inside the library, and each obtains exactly the results it would have obtained running alone.",
 ["schedules", "inputs"], "all interleavings of calls on distinct objects",
 "No test starts a thread.",
 ["src/ctsa.c", "src/emle.c", "src/polyroot.c", "src/stl.c", "src/talg.c", "src/optimc.c", "src/wavelib.c"],
 [("no mutable global or function-static state", "src/*.c")],
 ["ThreadSanitizer reports; per-thread results compared bit for bit with a sequential run"])

prop("C07", "Reported likelihood, variance, residuals and AIC describe the reported model",
 "After a successful maximum-likelihood fit (ARIMA, SARIMA, SARIMAX) the reported log-likelihood is the exact Gaussian log-likelihood of the differenced, regression-adjusted series under the reported coefficients with the innovation variance profiled out, the reported variance is that profiled variance, and the residuals are the standardised one-step innovations. The reported AIC is -2 log-likelihood plus twice the number of estimated coefficients plus two; conditional-sum-of-squares fits report the corresponding conditional quantities.",
 ["inputs", "configurations"], "all series and orders, all fitting methods and optimisers",
 "Tests print the numbers for one dataset and check nothing.",
 ["src/emle.c", "src/ctsa.c"],
 [("exact likelihood by state-space filtering", "src/emle.c fas154*, karma, starma"), ("conditional likelihood", "src/emle.c fcss*")],
 ["object fields phi/theta/PHI/THETA/exog/mean/var/res/loglik/aic after exec, against an independent long-double innovations filter"],
 state=[("params/res/vcov", "packed result vector", "src/ctsa.h")])

prop("C08", "Maximum-likelihood fits are actually (locally) maximal",
 "When an ARIMA, SARIMA or SARIMAX fit reports success (with any optimiser but L-BFGS, whose stopping code also covers possible success), no small move of any reported coefficient noticeably increases the objective it claims to maximise, and the fitted objective is at least as good as that of the trivial model (all ARMA coefficients zero); on ordinary series failing to report success is the exception for every optimiser.",
 ["inputs", "configurations"], "all series, orders, methods and optimisers that report success",
 "Tests do not evaluate the likelihood at any other point.",
 ["src/emle.c", "src/optimc.c", "src/secant.c", "src/newtonmin.c", "src/lnsrchmp.c", "src/neldermead.c", "src/conjgrad.c"],
 [("fminunc over the (conditional) likelihood", "src/emle.c as154*, css*"), ("convergence codes", "src/optimc.c")],
 ["object fields after exec; objective re-evaluated by an independent implementation at perturbed coefficients"])

prop("C09", "Fitted models are invertible, and stationary when success is reported",
 "A successful maximum-likelihood fit returns moving-average polynomials (regular and seasonal) with no root inside the unit circle and a positive finite variance, with all coefficients finite; the root helpers that enforce this reflect every offending root to its reciprocal and leave already-invertible polynomials unchanged, and the stationarity test accepts exactly the polynomials whose roots all lie outside the unit circle; the nonstationarity codes are reported only for autoregressive polynomials that have a root on or inside it.",
 ["inputs", "configurations"], "all series and orders; all coefficient vectors passed to the helpers",
 "Tests do not compute roots of any fitted polynomial.",
 ["src/emle.c", "src/talg.c", "src/ctsa.c"],
 [("invertroot / archeck / checkroots", "src/talg.c, src/emle.c")],
 ["fitted theta/THETA; outputs of archeck and invertroot against an independent root test"])

prop("C10", "Forecasts are the minimum mean-square linear forecasts of the fitted model",
 "Point forecasts equal the best linear predictor of the future values implied by the reported coefficients, differencing orders and mean given the whole observed series, and the reported mean-square errors equal the innovation variance times the cumulative squared psi-weights of the full (integrated, seasonal) model; hence errors are non-negative, and the first h forecasts do not depend on how many are requested.",
 ["inputs", "configurations"], "all fitted AR, ARIMA, SARIMA and SARIMAX models and all horizons",
 "Tests print a few forecasts for one dataset and check nothing.",
 ["src/emle.c", "src/ctsa.c", "src/talg.c"],
 [("finite sample prediction by state-space recursion", "src/emle.c forkal"), ("differencing polynomial assembly", "src/ctsa.c *_predict")],
 ["xpred/amse arrays against independent difference-equation forecasts and psi-weight recursion"])

prop("C11", "Equivalent model specifications agree",
 "ARIMA, SARIMA with zero seasonal orders, and SARIMAX without regressors or seasonal orders are the same model: given the same series, orders and method they attain the same likelihood and produce the same forecasts, up to optimiser tolerance. Rescaling the series rescales coefficients of location, standard errors and forecasts (variance and mean-square errors by the square) and leaves the ARMA coefficients unchanged; adding a constant to the series moves mean and forecasts by that constant and changes nothing else.",
 ["inputs", "configurations"], "all series, orders, scale factors and shifts",
 "Relates two or more executions; no test compares two runs.",
 ["src/ctsa.c", "src/emle.c"],
 [("profiled likelihood, location estimated by regression", "src/emle.c")],
 ["fitted fields and forecasts of paired executions"])

prop("C12", "Exogenous regressors act linearly and additively",
 "In SARIMAX models the regression effect is estimated jointly with the errors' ARMA structure and is purely additive: adding a multiple of a regressor to the series shifts that coefficient by the same multiple and nothing else, permuting regressors permutes their coefficients, and changing future regressor values by delta changes the forecasts by exactly the coefficient times delta while leaving the mean-square errors unchanged. Linearly dependent regressors are reported as an error instead of being fitted.",
 ["inputs", "configurations"], "all series, regressor matrices, orders and future regressor values",
 "The SARIMAX tests run one fixed regressor set and check nothing.",
 ["src/ctsa.c", "src/emle.c", "src/regression.c"],
 [("regression start values and joint likelihood", "src/emle.c cssx, as154x"), ("forecast adjustment", "src/ctsa.c sarimax_predict")],
 ["exog coefficients, forecasts and return codes of paired executions"])

prop("C13", "Coefficient covariance matches the curvature of the likelihood",
 "The variance-covariance matrix returned after a successful fit has one row per estimated coefficient, is symmetric, and is the inverse of the observed information of the objective that was maximised (sample size times the Hessian of the average negative log-likelihood) at the reported coefficients; standard errors are the square roots of its diagonal.",
 ["inputs", "configurations"], "all fits with an interior, well-conditioned optimum",
 "Tests print standard errors without reference values.",
 ["src/emle.c", "src/newtonmin.c", "src/ctsa.c"],
 [("finite-difference Hessian and its inverse", "src/emle.c, src/newtonmin.c hessian_fd")],
 ["*_vcov output against a long-double Hessian of an independent likelihood"])

prop("C14", "Auto-ARIMA respects its limits and options and reports coherent criteria",
 "The order selected by Auto-ARIMA never exceeds the configured maxima (p,d,q,P,D,Q and, for exhaustive search, the total), has no differencing when the series is declared stationary, no seasonal part when seasonality is switched off or the period is one, and no mean or drift term when these are disallowed (a series that is constant after differencing is modelled by its constant regardless); without regressors its differencing orders are those the seasonality and unit-root selectors give. The reported log-likelihood, variance, AIC, AICc and BIC satisfy their defining formulas for the reported model, and the exhaustive search never selects a model whose criterion is worse than that of another admissible model it considered, nor worse than the stepwise search's choice over the same candidates; without approximation the stepwise search never ends at a model worse than one of its starting models or than an admissible neighbour (one step in the orders or the constant). Printing the search changes nothing, and every model it logs is within the limits and carries the criterion of that model's own fit.",
 ["inputs", "configurations"], "all series, limits and option combinations",
 "Three fixed datasets with near-default options; the chosen order is printed, not checked.",
 ["src/ctsa.c", "src/autoutils.c"],
 [("auto_arima1, search_arima, myarima", "src/ctsa.c"), ("ndiffs/nsdiffs", "src/autoutils.c")],
 ["auto_arima object fields after exec"])

prop("C15", "Auto-ARIMA delivers the fit and forecasts of the model it selected",
 "Coefficients, variance and likelihood reported by Auto-ARIMA are those of the selected seasonal ARIMA model with regressors (including the drift term when one is selected), estimated by the chosen method, and its forecasts equal the best linear forecasts of that model: history is adjusted for mean, drift and regressors, and their future contribution is added back; a series that is exactly constant after differencing is continued exactly (a level only when a mean is allowed).",
 ["inputs", "configurations"], "all series and options, with and without regressors and drift",
 "Tests print forecasts only.",
 ["src/ctsa.c"],
 [("auto_arima_exec result copy, auto_arima_predict", "src/ctsa.c")],
 ["auto_arima fields and forecasts against an independent filter/forecaster and a direct SARIMAX fit"])

prop("C16", "ACVF, ACF and PACF follow their definitions",
 "For every series and lag the autocovariance equals the (1/N) sum of lagged products of mean deviations, whichever computation method is chosen; autocorrelations are autocovariances over lag zero, start at one and lie in [-1,1]; partial autocorrelations equal the last coefficients of the successive autoregressions fitted by the selected method. Autocovariances, autocorrelations and the Yule-Walker and likelihood partial autocorrelations are invariant to shifts, and all correlations to rescaling of the series.",
 ["inputs"], "all series, lags and methods",
 "acftest/pacftest print the values for one dataset.",
 ["src/stats.c", "src/initest.c", "src/ctsa.c"],
 [("autocovar, autocovar_fft, pacf_yw, pacf_burg, pacf_mle", "src/stats.c, src/initest.c")],
 ["acvf/acf/pacf outputs against direct long-double sums and Levinson recursion"])

prop("C17", "AR estimators solve the equations that define them",
 "Yule-Walker estimates solve the Yule-Walker system of the sample autocovariances, Burg estimates minimise the forward-plus-backward prediction error stage by stage, the innovations algorithm reproduces the exact innovations coefficients of the given covariances, and each reports the matching innovation variance. The preliminary Box-Jenkins estimates (regular and seasonal) solve the modified Yule-Walker equations for the autoregression and the moment equations of the moving average, with the matching constant and variance. AR objects select an order within their limit, report mean and coefficients for that order, and YW/Burg models are stationary.",
 ["inputs", "configurations"], "all non-constant series, orders and methods",
 "artest prints estimates for one dataset.",
 ["src/initest.c", "src/ctsa.c", "src/boxjenkins.c"],
 [("ywalg2, burgalg, innalg, hralg, ar_estimate", "src/initest.c, src/ctsa.c"), ("USPE, USPE_seasonal", "src/boxjenkins.c")],
 ["phi/var outputs against independent solutions"])

prop("C18", "Unit-root and seasonality tests compute their defining statistics",
 "The KPSS, augmented Dickey-Fuller and Phillips-Perron statistics equal their definitions on the given series, lag and deterministic part; p-values lie inside the tabulated range, are monotone in the statistic and interpolate the published tables. The differencing selectors return an order between zero and the given maximum that is the first at which the chosen test no longer rejects, and the OCSB and seasonal-strength tests return their defining statistics (OCSB: the t statistic of the seasonal term of the test regression on series filtered by the first-stage seasonal and non-seasonal autoregressions, the lag chosen by the requested criterion).",
 ["inputs", "configurations"], "all series, lags, test types and levels",
 "misctests prints statistics for one dataset each.",
 ["src/unitroot.c", "src/seastest.c", "src/autoutils.c"],
 [("ur_kpss, ur_df, ur_pp, ur_df2, ur_pp2, OCSBtest, SHtest, ndiffs, nsdiffs", "src/unitroot.c, src/seastest.c, src/autoutils.c")],
 ["statistics/p-values/orders against independent regressions"])

prop("C19", "Seasonal decompositions add up and isolate the period",
 "For every series and period, STL and multiple-seasonal STL return components whose sum is the (Box-Cox transformed where requested) series, the components being those of the published LOESS procedure with the given windows, degrees, jumps and robustness; classical decomposition returns, for the interior of the series, the centred moving-average trend, a strictly periodic seasonal component normalised to mean zero (or one) and the matching remainder. Decompositions are equivariant under scaling and shifting of the series, and the periodic option gives an exactly periodic seasonal component.",
 ["inputs", "configurations"], "all series lengths of at least two periods, periods, window/degree/robustness options",
 "misctests prints one decomposition.",
 ["src/seastest.c", "src/stl.c"],
 [("stl_, stl, modstl, mstl, decompose", "src/stl.c, src/seastest.c")],
 ["seasonal/trend/remainder outputs against a reference LOESS-based implementation and algebraic identities"])

prop("C20", "Box-Cox transformation, inverse and parameter choice are consistent",
 "Transforming a positive series with any lambda follows the Box-Cox formula (logarithm at zero), is strictly increasing in the data, and the inverse transform recovers the series; the automatically chosen lambda lies in the search interval, the returned series is the transform at that lambda, and no neighbouring or grid lambda has a noticeably larger profile log-likelihood.",
 ["inputs"], "all positive series and lambda values",
 "One dataset in misctests.",
 ["src/boxcox.c"],
 [("boxcox_eval, inv_boxcox_eval, boxcox_loglik, boxcox", "src/boxcox.c")],
 ["transform outputs against long-double formula"])

prop("C21", "Wavelet transforms reconstruct perfectly",
 "For every supported wavelet, signal length, decomposition level and extension mode, the inverse DWT, SWT, MODWT and wavelet-packet transforms recover the original signal, the transforms are linear in the signal, MODWT and periodic orthogonal DWT preserve energy, and the multiresolution components sum to the signal. Coefficient lengths reported by the object add up to the output length.",
 ["inputs", "configurations"], "all wavelets, lengths, levels, extension and convolution modes",
 "dwttests runs one wavelet on one signal and prints the error.",
 ["src/wavelib.c", "src/wtmath.c", "src/wavefilt.c", "src/conv.c"],
 [("dwt/idwt, swt/iswt, modwt/imodwt, dwpt/idwpt, get*mra", "src/wavelib.c"), ("filter tables", "src/wavefilt.c")],
 ["reconstructed signals and coefficient vectors"])

prop("C22", "FFT, convolution and spectral estimates are exact transforms",
 "For every length the complex and real FFTs equal the discrete Fourier transform and invert each other up to the length factor; convolution by any method equals the direct sums for every mode; periodograms and spectral densities equal their squared-modulus definitions at the stated frequencies and are non-negative.",
 ["inputs", "configurations"], "all lengths (prime, composite, power of two), all modes",
 "Indirect use on one or two fixed lengths.",
 ["src/hsfft.c", "src/real.c", "src/conv.c", "src/spectrum.c", "src/filter.c"],
 [("mixed radix and Bluestein FFT", "src/hsfft.c"), ("conv_fft / conv_direct", "src/conv.c"), ("periodogram, psd", "src/spectrum.c")],
 ["outputs against an O(n^2) long-double DFT / direct sums"])

prop("C23", "Matrix factorisations reproduce their matrix",
 "LU, QR, Cholesky and singular value factorisations reproduce the factored matrix with factors of the required structure (triangular, orthonormal, sorted non-negative singular values); solve and inverse satisfy their defining equations; all matrix-product variants (plain, recursive, Strassen) agree with the definition for every shape; eigenvalues are those of the matrix whenever the QR iteration converges, and the rank is the number of independent columns.",
 ["inputs"], "all shapes and well-scaled matrices, including rank-deficient ones for rank and SVD",
 "Not covered by any assertion.",
 ["src/matrix.c", "src/lls.c"],
 [("ludecomp, minverse, linsolve, qrdecomp, chol, svd, eig, mmult family", "src/matrix.c")],
 ["factor outputs recombined in long double"])

prop("C24", "Regression results satisfy the least-squares and inference identities",
 "Linear regression by any solver returns coefficients whose residuals are orthogonal to every regressor; residuals, fitted values, sums of squares, R-squared, standard errors, confidence limits, F and t statistics, one-tailed p-values and information criteria satisfy their textbook formulas, with or without intercept, and do not depend on which least-squares method is selected. Linear least-squares kernels return the minimiser (of minimum norm where the problem is wide or, for the SVD kernels, rank deficient); singular value and bidiagonal factorisations reproduce their matrix.",
 ["inputs", "configurations"], "all full-rank designs, both intercept settings, all solver choices",
 "misctests prints a regression table.",
 ["src/regression.c", "src/lls.c", "src/dist.c", "src/pdist.c"],
 [("regress / linreg_multi / confint / zerohyp / lls_*", "src/regression.c, src/lls.c")],
 ["reg object fields and residuals against long-double normal equations and Boost distributions"])

prop("C25", "Polynomial root finding returns all the roots",
 "For every polynomial of degree n up to 40 with non-zero leading coefficient the root finder reports success and returns n roots which, multiplied out, reproduce the polynomial up to scaling; roots of real polynomials come in conjugate pairs, and a polynomial with vanishing leading coefficient is rejected.",
 ["inputs"], "all real and complex polynomials of moderate degree",
 "Never checked directly.",
 ["src/polyroot.c"],
 [("cpoly (Jenkins-Traub)", "src/polyroot.c")],
 ["ZEROR/ZEROI re-expanded in long double"])

prop("C26", "Distribution and special functions are accurate probability functions",
 "The normal, t, F, gamma, beta and chi-squared densities, distribution functions and quantiles and the error, gamma, beta and incomplete gamma/beta functions agree with their mathematical definitions, the continuous functions to near double accuracy and the quantiles to the documented stopping rule; distribution functions are monotone with values in [0,1], complementary functions sum to one, and quantiles invert the distribution functions.",
 ["inputs"], "all arguments and parameters in the functions' domains",
 "misctests prints a few values.",
 ["src/dist.c", "src/pdist.c", "src/erfunc.c"],
 [("ibeta, pgamma, gamma_log, erfinv, betainv and the *pdf/*cdf/*inv wrappers", "src/dist.c, src/pdist.c, src/erfunc.c")],
 ["return values against Boost.Math in long double"])

prop("C27", "Optimisers descend and report honest results",
 "Every minimiser (Nelder-Mead, Newton line-search and trust-region variants, conjugate gradient, BFGS variants, L-BFGS, bounded Brent, Levenberg-Marquardt) starts at the caller's point and, unless it reports an overflow of the objective (code 15), returns a point whose objective value is no larger than there; reports an overflow only when the objective was infinite or not a number at a point it evaluated; reports success by vanishing gradient only where the gradient is that small; ends at the minimiser of well-scaled smooth convex problems when it reports success; reports an objective equal to the objective at the returned point; calls the user function with the caller's parameters and dimension; and stays within its iteration limit. Bracketing routines evaluate and return only points of the interval.",
 ["inputs", "configurations"], "all smooth objectives, starting points and methods",
 "misctests runs a few fixed problems and prints results.",
 ["src/optimc.c", "src/newtonmin.c", "src/secant.c", "src/conjgrad.c", "src/neldermead.c", "src/lnsrchmp.c", "src/brent.c", "src/nls.c"],
 [("optimize / fminunc / fminsearch / fminbnd / nls / levmar", "src/optimc.c")],
 ["traced objective callbacks; returned point, value and code"])

prop("C28", "Differencing and ARMA algebra are exact",
 "Differencing of any order and season equals repeated application of (1-B^s), the differencing polynomials are the expanded products, polynomial multiplication, up- and down-sampling and cumulative sums follow their definitions; psi- and pi-weights are the power-series coefficients of the ARMA transfer function and its inverse; theoretical autocovariances satisfy the ARMA covariance equations (cross-covariances up to the moving-average order); the parameter transformation to the stationary region and its inverse undo each other.",
 ["inputs", "configurations"], "all series, orders, seasons, stationary coefficient vectors and lags",
 "Used only inside fits; never checked.",
 ["src/talg.c", "src/ctsa.c"],
 [("diff, diffs, deld, delds, poly, psiweight, piweight, arma_autocovar, twacf, artrans, arinvtrans", "src/talg.c")],
 ["outputs against direct recurrences"])

prop("C29", "Accuracy measures, filters and smoothers match their definitions",
 "Mean error, (root) mean squared error, mean absolute (percentage, scaled) errors equal their formulas for every pair of series; moving-average, weighted, exponential and linear filters and detrend/deseason helpers equal their defining sums at every position including the borders; linear interpolation passes through its nodes and stays between neighbouring values; the super smoother reproduces straight lines and is invariant to the obvious rescalings.",
 ["inputs"], "all series, windows, weights and evaluation points",
 "Not checked by any test.",
 ["src/errors.c", "src/filter.c", "src/talg.c"],
 [("me, mse, rmse, mae, mape, mpe, mase", "src/errors.c"), ("mafilter, mafilter2, expfilter, mafilter_wt, filter, conv", "src/filter.c"), ("interpolate_linear, approx, supsmu", "src/talg.c")],
 ["outputs against direct long-double formulas"])

prop("C30", "Printed summaries and the public header show the object's true contents",
 "The summary functions print the orders, coefficients, standard errors, mean, variance, likelihood and criteria actually held by the object, one line per coefficient, and change nothing; the order table printed by model_estimate holds the criteria of the Hannan-Rissanen fits of the differenced series and names their minima; a program compiled against the public header reads exactly the same field values as the library wrote.",
 ["inputs", "configurations"], "all fitted objects of every type",
 "Tests print summaries but never read them back.",
 ["src/ctsa.c", "header/ctsa.h", "src/ctsa.h", "src/regression.c", "src/wavelib.c"],
 [("*_summary, model_estimate", "src/ctsa.c"), ("struct layout", "header/ctsa.h vs src/ctsa.h")],
 ["captured standard output parsed and compared with the object; fields read through a unit compiled with header/ctsa.h"])

prop("C31", "Box-Jenkins estimates minimise the back-forecasted sum of squares",
 "A Box-Jenkins fit (method 2 of ARIMA and SARIMA) reports success only with finite coefficients; then no small move of a coefficient noticeably lowers the back-forecasted (unconditional) sum of squares of the differenced series about the reported mean, nor does the model without ARMA terms attain a lower one; the residuals are the back-forecasted ones, the variance is their sum of squares over the degrees of freedom, the covariance matrix is that variance times the inverse cross-product of the derivatives in the coefficient order of the other methods (mean last), and moving or rescaling the series, or fitting through the other front end, changes the results only as it must.",
 ["inputs", "configurations"], "all series and orders with a stationary, invertible fit",
 "No test uses this method.",
 ["src/boxjenkins.c", "src/ctsa.c"],
 [("nlalsm, nlalsms, avaluem, USPE, USPE_seasonal", "src/boxjenkins.c"), ("arima_exec, sarima_exec method 2", "src/ctsa.c")],
 ["independent long-double back-forecasting evaluated at and around the reported coefficients, exact quadratic form of the model, paired fits"])

prop("C32", "Degenerate series are answered, never reported as a usable model when none is",
 "Given any finite series however degenerate (zero, constant, alternating, a single spike or step, an exact trend, exactly periodic, explosive, enormous or tiny values, counts, mixed magnitudes, a handful of points, a period longer than the data), every model fit, order search, AR estimator, unit-root, stationarity or seasonality test, decomposition, correlation or transform with a solvable shape returns to the caller with a documented code; a result reported as a success has finite coefficients, a finite non-negative variance, finite residuals, a likelihood that is finite unless the fit is exact, and finite forecasts with non-negative mean-square errors; p-values lie in [0,1] or are reported as not a number, differencing orders lie within their limits, and decompositions still add up.",
 ["inputs", "configurations"], "all finite series of every degenerate shape, all orders and methods",
 "Tests use five well-behaved series; degenerate data reach the singular, zero-variance, too-short and overflow branches that decide between a code and a crash.",
 ["src/ctsa.c", "src/emle.c", "src/autoutils.c", "src/seastest.c", "src/unitroot.c", "src/boxjenkins.c"],
 [("arima_exec, sarima_exec, sarimax_exec, ar_exec, auto_arima_exec and their predict functions", "src/ctsa.c"), ("as154, css and seasonal variants", "src/emle.c"), ("ndiffs, nsdiffs", "src/autoutils.c"), ("OCSBtest, SHtest, stl, decompose", "src/seastest.c"), ("ur_kpss, ur_df, ur_pp", "src/unitroot.c")],
 ["process outcome of every call, return code against finiteness and sign of every reported field and forecast"])

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    assert all(len(p["title"]) <= 80 for p in P), [p["id"] for p in P if len(p["title"]) > 80]

if __name__ == "__main__":
    main()
