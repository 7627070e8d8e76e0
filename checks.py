"""Check table: which drivers, in which build flavour, how many cases, which events count."""
O1 = ["-O1", "-g", "-fno-omit-frame-pointer", "-ffp-contract=off"]
UB = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]
FLAVORS = {
    "plain": dict(cc="gcc", cxx="g++", libflags=["-O2", "-g", "-ffp-contract=off"], cxxflags=["-std=gnu++17", "-O2", "-g", "-ffp-contract=off"], ldflags=["-rdynamic"]),
    "asan": dict(cc="clang", cxx="clang++", libflags=O1 + UB, cxxflags=["-std=gnu++17", "-DVF_NO_ORACLE=1", "-DVF_EXACT"] + O1 + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ldflags=UB),
    "msan": dict(cc="clang", cxx="clang++", libflags=O1 + ["-fsanitize=memory"], cxxflags=["-std=gnu++17", "-DVF_NO_ORACLE=1"] + O1 + ["-fsanitize=memory"], ldflags=["-fsanitize=memory"]),
    # without optimisation: the optimiser may give an uninitialised scalar a convenient value before MemorySanitizer looks
    "msan0": dict(cc="clang", cxx="clang++", libflags=["-O0", "-g", "-ffp-contract=off", "-fsanitize=memory"], cxxflags=["-std=gnu++17", "-DVF_NO_ORACLE=1"] + O1 + ["-fsanitize=memory"], ldflags=["-fsanitize=memory"]),
    "tsan": dict(cc="clang", cxx="clang++", libflags=O1 + ["-fsanitize=thread"], cxxflags=["-std=gnu++17"] + O1 + ["-fsanitize=thread"], ldflags=["-fsanitize=thread"]),
    "heap": dict(cc="gcc", cxx="g++", shim=True, libflags=["-O2", "-g", "-ffp-contract=off"], cxxflags=["-std=gnu++17", "-O2", "-g", "-ffp-contract=off"], ldflags=["-rdynamic"]),
    "ledger": dict(cc="gcc", cxx="g++", shim=True, libflags=["-O1", "-g", "-fno-omit-frame-pointer", "-ffp-contract=off"], cxxflags=["-std=gnu++17", "-DVF_LEDGER", "-O1", "-g", "-ffp-contract=off"], ldflags=["-rdynamic"]),
}

CHECKS = {}


def B(pid, driver, quick, thorough, rule, **kw):
    """Behavioural check: one driver with its own oracle in the plain build."""
    CHECKS[pid] = dict(parts=[dict(driver=driver, flavor="plain", quick=quick, thorough=thorough, **({"cpu": kw.pop("cpu")} if "cpu" in kw else {}))],
                       exclude=r"^(io|leak|pure|par):", rule=rule, **kw)


B("C07", "c07_likelihood", 2400, 60000, "fits that report success whose reported coefficients are inside the stationary region; distinct by specification and series", min_cases=2000, min_distinct=1000,
  shares=[("share:unsuccessful:m2", r"ret(?!1$)", r":m2:ret", 0.15)])

B("C09", "c09_roots", 6000, 60000, "successful ML fits with AR or MA terms, and coefficient vectors with known roots given to archeck/invertroot; distinct by specification+series or coefficients", min_cases=4500, min_distinct=2250,
  shares=[("share:unsuccessful:" + m, r"ret(?!1$)", r":%s:ret" % m, 0.2) for m in ("m0", "m1")])
B("C10", "c10_forecast", 7500, 45000, "successful fits inside the stationary and invertible region with a horizon; distinct by specification, series and horizon", min_cases=5000, min_distinct=2500)
B("C08", "c08_optimality", 7200, 43200, "fits that report success at an interior point; distinct by specification and series", min_cases=6000, min_distinct=3000,
  shares=[("share:unsuccessful:opt0", r"ret(?!1$)", r":opt0:ret", 0.35), ("share:unsuccessful:other", r"ret(?!1$)", r":opt[123467]:ret", 0.15), ("share:unsuccessful:opt5", r"ret(?!1$)", r":opt5:ret", 0.04), ("share:not-converged:opt5", r"ret(?!1$|10$|12$)", r":opt5:ret", 0.015)])
B("C13", "c13_vcov", 6000, 36000, "successful fits at an interior, well-conditioned optimum; distinct by specification and series", min_cases=4500, min_distinct=1500)
B("C11", "c11_equiv", 9600, 57600, "pairs of successful fits with an identified optimum; distinct by specification, series and transformation", min_cases=8000, min_distinct=2400)
B("C12", "c12_xreg", 4800, 30000, "pairs of successful SARIMAX fits with identified optimum, forecasts of one fit under two futures, and refusals of dependent designs; distinct by specification and series", min_cases=4500, min_distinct=1800)

B("C16", "c16_acf", 32000, 200000, "random series (ten processes, any location and scale) with their lag counts; distinct by series and lag count", min_cases=32000, min_distinct=28000)
B("C17", "c17_ar", 4000, 60000, "random series fitted by each AR estimator and by the preliminary moment estimators; distinct by series, order and method", min_cases=3900, min_distinct=3500, need=["c17_ar:moments:ar", "c17_ar:moments:ma", "c17_ar:moments:seasonal"])

B("C18", "c18_tests", 1600, 30000, "random series (stationary, integrated, seasonal, trending) given to one of KPSS, ADF, PP, ur.df, ur.pp, ndiffs, OCSB, seasonal strength, nsdiffs; distinct by series and options", min_cases=1600, min_distinct=1400)

B("C19", "c19_decomp", 18000, 108000, "random series with random STL options (windows, degrees, jumps, robustness), modified and multiple STL with Box-Cox, and classical decompositions; distinct by series and options", min_cases=18000, min_distinct=15000, need=["c19_decomp:stl", "c19_decomp:stl:robust", "c19_decomp:stl:periodic", "c19_decomp:mstl:many", "c19_decomp:decompose:mul", "c19_decomp:decompose:add"])

B("C22", "c22_fft", 16000, 96000, "random sequences and lengths (composite, prime, Bluestein) given to the complex and real transforms, convolution and filtering, spectral estimates; distinct by content and length", min_cases=16000, min_distinct=14000)

B("C28", "c28_algebra", 160000, 960000, "random ARMA coefficients and series given to the differencing, lag-polynomial, psi-weight, pi-weight, autocovariance and parameter-transform routines; distinct by input", min_cases=160000, min_distinct=140000)

B("C23", "c23_matrix", 60000, 360000, "random matrices (Gaussian, integer, sparse, low rank, badly scaled, triangular, permuted) of random shapes given to the products, factorisations, solvers, SVD, rank and eigenvalue routines; distinct by matrix", min_cases=60000, min_distinct=50000, need=["c23_matrix:lu:square", "c23_matrix:chol:blocked", "c23_matrix:svd:wide", "c23_matrix:product:big"])

B("C26", "c26_dist", 10000, 150000, "random arguments of every density, distribution function, quantile and special function, with their ends and branch points; distinct by arguments", min_cases=10000, min_distinct=9000)

B("C24", "c24_reg", 10000, 80000, "random designs (with and without intercept, polynomial, dummies, collinear-ish) regressed by each solver, simple regressions, and random full-rank, wide and rank-deficient least squares problems given to each kernel; distinct by data", min_cases=10000, min_distinct=9000, need=["c24_reg:lls:full", "c24_reg:lls:wide", "c24_reg:lls:deficient", "c24_reg:normal", "c24_reg:svd", "c24_reg:polynomial"])

B("C20", "c20_boxcox", 18000, 108000, "random positive series (log-normal, shifted, power, counts) with special and random lambdas, their inverses, profile likelihoods and automatic choices; distinct by series and lambda", min_cases=18000, min_distinct=16500, need=["c20_boxcox:chosen:interior", "c20_boxcox:chosen:at-border", "c20_boxcox:inverse", "c20_boxcox:loglik"])

B("C25", "c25_roots", 120000, 720000, "random real and complex polynomials (random, ARMA, seasonal, x^n-c, wide spread, multiple roots, badly scaled, near the unit circle, sparse, zero leading or trailing coefficients); distinct by coefficients", min_cases=120000, min_distinct=110000, need=["c25_roots:multiple", "c25_roots:spread", "c25_roots:scaled", "c25_roots:rejected"])

B("C29", "c29_filters", 160000, 960000, "random pairs of series for the accuracy measures, series and windows for the filters, node sets and points for interpolation, and weighted, tied, periodic data for the super smoother; distinct by data", min_cases=160000, min_distinct=150000, need=["c29_filters:deseason", "c29_filters:percentage:infinite", "c29_filters:auto", "c29_filters:auto:periodic", "c29_filters:bass", "c29_filters:fixed:periodic", "c29_filters:line"])

B("C27", "c27_optim", 24000, 300000, "random smooth convex problems, classic non-convex problems and objectives that are infinite off their domain given to every minimiser with and without gradients, bracketed one-dimensional problems and least squares fits, each traced through its callback; distinct by problem and start", min_cases=24000, min_distinct=22000, need=["c27_optim:method0:code1", "c27_optim:method4:code1", "c27_optim:method6:code1", "c27_optim:method7:code1", "c27_optim:limit-reached", "c27_optim:zero", "c27_optim:bounded", "c27_optim:lsq:limit", "c27_optim:overflow", "c27_optim:start-outside"])

B("C21", "c21_wavelet", 36000, 216000, "random signals (noise, impulses, ramps, constants), lengths, levels, wavelets of every family, extension and convolution modes given to the discrete, stationary, maximal-overlap and packet transforms, each object used twice; distinct by signal and configuration", min_cases=36000, min_distinct=30000, need=["c21_wavelet:filters", "c21_wavelet:dwt:sym:fft", "c21_wavelet:dwt:per:direct", "c21_wavelet:swt:per:fft", "c21_wavelet:modwt:sym:fft", "c21_wavelet:wtree:sym:direct", "c21_wavelet:dwpt:best", "c21_wavelet:dwt:filter-longer-than-signal"])

B("C14", "c14_auto", 1400, 30000, "Auto-ARIMA runs on random series (stationary, integrated, seasonal, trending, constant, exactly periodic, short) with random limits, starts, options, criteria and tests; distinct by configuration and series", min_cases=1200, min_distinct=1000, shares=[("share:unsuccessful", r"ret(?!1$)", r":(generic|trend|short):ret", 0.02)], need=["c14_auto:judged:exhaustive", "c14_auto:judged:stepwise", "c14_auto:judged:both", "c14_trace:candidate:finite", "c14_trace:candidate:rejected"])

CHECKS["C14"]["parts"] += [dict(driver="c14_trace", flavor="plain", quick=700, thorough=15000)]
B("C15", "c15_auto", 1400, 30000, "Auto-ARIMA runs that report success inside the stationary and invertible region, with forecasts; distinct by configuration, series and horizon", min_cases=1200, min_distinct=1000, shares=[("share:unsuccessful", r"ret(?!1$)", r"(exhaustive|stepwise):ret", 0.08)], need=["c15_auto:model:ML", "c15_auto:model:CSS", "c15_auto:model:drift:d1D0:r1", "c15_auto:model:drift:d1D0:r2", "c15_auto:model:mean:d0D0:r1", "c15_auto:model:seasonal-terms"])

B("C30", "c30_summary", 4000, 80000, "fitted models of every type and method, autoregressions, Auto-ARIMA results, regressions, wavelet objects, optimiser results and order tables whose printed report was captured and parsed; distinct by object", min_cases=4000, min_distinct=3500, need=["c30_summary:auto:drift", "c30_summary:auto:drift:xreg", "c30_summary:order-table", "c30_summary:ar", "c30_summary:regression", "c30_summary:wpt"])

B("C31", "c31_boxjen", 20000, 120000, "Box-Jenkins fits of ARIMA and seasonal ARIMA models (mean, centred, differenced, seasonal) that report success inside the stationary and invertible region; distinct by specification and series", min_cases=17500, min_distinct=15000, shares=[("share:unsuccessful", r"ret(?!1$)", r":s?arima:ret", 0.2)], need=["c31_boxjen:exact", "c31_boxjen:vcov", "c31_boxjen:shift", "c31_boxjen:scale", "c31_boxjen:front-end", "c31_boxjen:sarima:d0:D1"])

B("C32", "c32_hostile", 6000, 120000, "degenerate series of 22 shapes (zero, constant, alternating, spike, step, exact trends, enormous and tiny values, explosive, counts, exactly periodic, near-constant, mixed magnitudes, very short) given to every model, order search, test and decomposition; distinct by series and configuration", min_cases=6000, min_distinct=5500, need=["c32_hostile:model:code1", "c32_hostile:model:code15", "c32_hostile:model:code10", "c32_hostile:auto:code1", "c32_hostile:ar:code1", "c32_hostile:ar:code15", "c32_hostile:stl", "c32_hostile:shape:single-end"])

# ---- whole-library monitors: the same workloads under each sanitizer / ledger / replay mode
# (driver, quick cases under a sanitizer)
MODELLING = [("c07_likelihood", 500), ("c08_optimality", 300), ("c09_roots", 500), ("c10_forecast", 500), ("c11_equiv", 300), ("c12_xreg", 400), ("c13_vcov", 300), ("c16_acf", 600), ("c17_ar", 600), ("c18_tests", 300), ("c19_decomp", 400), ("c28_algebra", 600), ("c20_boxcox", 500), ("c14_auto", 200), ("c15_auto", 120), ("c31_boxjen", 500), ("c32_hostile", 500), ("c03_reuse", 600)]
REPORTS = [("c30_summary", 500)]   # swaps stdout, so it stays out of the threaded runs
TOOLBOX = [("c22_fft", 500), ("c23_matrix", 700), ("c24_reg", 600), ("c26_dist", 800), ("c25_roots", 800), ("c29_filters", 800), ("c27_optim", 1000), ("c21_wavelet", 500)]


def W(pid, flavor, drivers, rule, mode="", frac=1.0, deep=25, **kw):
    CHECKS[pid] = dict(parts=[dict(driver=d, flavor=flavor, mode=mode, quick=max(16, int(n * frac)), thorough=max(16, int(n * frac)) * deep) for d, n in drivers], rule=rule, **kw)


W("C01", "asan", MODELLING + REPORTS, "life cycles and calls of the modelling API executed under AddressSanitizer and UBSan; distinct by specification and data", keys=r"^(crash|hang|exit):")
W("C02", "asan", TOOLBOX, "toolbox calls executed under AddressSanitizer and UBSan; distinct by arguments", keys=r"^(crash|hang|exit):")
W("C03", "msan", MODELLING + REPORTS + TOOLBOX, "calls whose results were tracked to their last bit of uninitialised memory, and calls replayed under different heap contents and histories; distinct by arguments", frac=0.4, keys=r"^(pure:|crash:msan)")
CHECKS["C03"]["parts"] += [dict(driver=d, flavor="heap", mode="pure", quick=max(16, int(n * 0.5)), thorough=int(n * 0.5) * 25) for d, n in MODELLING + REPORTS + TOOLBOX]
CHECKS["C03"]["parts"] += [dict(driver=d, flavor="msan0", mode="", quick=max(20, int(n * 0.06)), thorough=max(20, int(n * 0.06)) * 25) for d, n in MODELLING + REPORTS + TOOLBOX]
CHECKS["C03"]["parts"] += [dict(driver="c03_reuse", flavor="plain", mode="", quick=5000, thorough=100000)]
W("C04", "ledger", MODELLING + REPORTS + TOOLBOX, "complete life cycles and calls after which the allocation ledger was compared; distinct by arguments", keys=r"^(leak:|crash:)")
W("C05", "plain", MODELLING + REPORTS + TOOLBOX, "calls whose input arrays were compared bit for bit before and after and whose output arrays were surrounded by guard words; distinct by arguments", keys=r"^io:")
W("C06", "tsan", MODELLING + TOOLBOX, "cases run on four threads at once under ThreadSanitizer, each result compared bit for bit with the same case run alone; distinct by arguments", mode="threads", frac=0.1, deep=40, keys=r"^(par:|crash:tsan)")



# technique and level_note per property, used by tools/mkmanifest.py
NOTES = {
    "default": ("runtime monitoring: online oracle (independent long-double reimplementation of the definition) over randomised executions of the real code",
                "Sampled exploration: holds on every execution observed (counts in the evidence); trusts the independent long-double oracle in harness/."),
    "C01": ("AddressSanitizer + UndefinedBehaviorSanitizer over randomised life cycles of the modelling API, inputs and outputs in exact-size heap blocks", "Holds on every execution observed; a read that stays inside one heap block is invisible to ASan (the oracle checks cover those)."),
    "C02": ("AddressSanitizer + UndefinedBehaviorSanitizer over randomised toolbox calls, inputs and outputs in exact-size heap blocks", "Holds on every execution observed; a read that stays inside one heap block is invisible to ASan (the oracle checks cover those)."),
    "C03": ("MemorySanitizer over the same workloads, and differential replay of each call under different heap fills and call histories with bitwise comparison of all results", "Holds on every execution observed; the C runtime is not instrumented."),
    "C04": ("allocation ledger (interposed malloc family) balanced around every complete life cycle, double and invalid frees included", "Holds on every execution observed; attribution by allocation site."),
    "C05": ("bitwise snapshots of every input array and guard words around every output array", "Holds on every call observed; writes beyond the guard words are left to C01/C02."),
    "C06": ("ThreadSanitizer on cases run on four threads at once, and bitwise comparison of each result with the same case run alone", "Holds on the interleavings observed; TSan flags unsynchronised accesses independently of whether the race bites."),
    "C30": ("parser over the captured report text and a second translation unit compiled against the public header reading the same object", "Sampled exploration over objects of every type, method and return code."),
}
