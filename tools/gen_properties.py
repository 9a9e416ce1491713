#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that titles, statements and anchors stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}),
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               hook_needed=None)))
A = "src/frds/algorithms/"; M = "src/frds/measures/"
G, MG = A+"_garch.py", A+"_mgarch.py"
GH, MH, UM = A+"utils/garch.hpp", A+"utils/mgarch.hpp", A+"utils/utils_module.cpp"
IF = [A+"isolation_forest/IsolationForest.cpp", A+"isolation_forest/IsolationForest.hpp", A+"isolation_forest/iforest_module.cpp", A+"isolation_forest/__init__.py"]

p("C01", "GARCH variance path follows the documented recursion",
  "For any parameters (omega, alpha, beta), residuals, backcast value and per-period bounds, the GARCH(1,1) conditional variance series starts at omega + (alpha + beta) * backcast and each later value is omega + alpha * (previous residual)^2 + beta * (previous variance). From the second value on each variance is bound-adjusted: raised to the lower bound if below it; if above the upper bound, replaced by upper + ln(value/upper), or by upper + 1000 when infinite. This holds with and without the compiled extension.",
  ["inputs", "configurations"], "all real parameters, residual series, backcasts and positive bounds; both back ends",
  "Tests only fit a few simulated series and compare the estimates with another package at 10% tolerance and only when the likelihood is worse; the bound adjustment is never triggered and the pure-Python path never runs.",
  [G, GH, UM], [("compute_variance / bounds_check", G+":GARCHModel"), ("compute_garch_variance", GH), ("argument parsing", UM)], ["GARCHModel.compute_variance(...)"])
p("C02", "GJR-GARCH variance path and forecast follow the recursion",
  "For any inputs the GJR-GARCH variance series starts at omega + (alpha + gamma/2 + beta) * backcast, and each later value is omega + alpha*e^2 + beta*(previous variance), plus gamma*e^2 exactly when the previous residual e is negative, with the same bound adjustment as GARCH. The variance forecast applies the same recursion without bound adjustment, seeded by the given initial variance, and returns only the forecast values after that seed.",
  ["inputs", "configurations"], "all real parameters, residual sign patterns, backcasts, bounds, initial variances; both back ends",
  "Tests fit simulated series only; they accept any estimate with a better likelihood, never force each sign pattern, and never call the forecast.",
  [G, GH, UM], [("compute_variance, forecast_variance", G+":GJRGARCHModel"), ("compute_gjrgarch_variance", GH)], ["GJRGARCHModel.compute_variance(...)", "GJRGARCHModel.forecast_variance(...)"])
p("C03", "Compiled and pure-Python back ends give the same results",
  "Whether or not the compiled extensions are available, the same call gives the same result: EWMA smoothing, variance bound adjustment, GARCH and GJR-GARCH variance series, DCC conditional correlations, and one LRMES simulation (firm return and systemic-event flag). Only floating-point rounding may differ.",
  ["inputs", "configurations"], "all finite real inputs within the stated sizes, with the extension present or absent",
  "Tests run with the extension only and never compare back ends; whether an import fails is a property of the installation.",
  [G, MG, M+"_long_run_mes.py", GH, MH, M+"lrmes.hpp", UM, M+"measures_module.cpp"], [("USE_CPP_EXTENSION switch", G), ("USE_CPP_EXTENSION switch", MG), ("USE_CPP_EXTENSION switch", M+"_long_run_mes.py")], ["ewma, bounds_check, compute_variance, conditional_correlations, simulation"])
p("C04", "Backcast, EWMA and variance bounds are as documented",
  "The backcast is the average of the first min(75, T) squared residuals with weights proportional to 0.94^t. EWMA starts at its initial value and each later value is lam*(previous value) + (1-lam)*(previous residual)^2. The variance bounds are 1e-6 and 1e6 times that EWMA (lam 0.94, started at the backcast average), after it has been clipped between the sample variance/1e8 and 1e7*(1 + largest squared residual).",
  ["inputs"], "all residual series of length T, including T below, at and above the 75-observation window",
  "Tests only reach these values through a fit on long series; errors in the window, weights or clipping barely move the estimates.",
  [G, GH], [("backcast, ewma, variance_bounds", G+":GARCHModel"), ("ewma", GH)], ["GARCHModel.backcast", "GARCHModel.ewma", "GARCHModel.variance_bounds"])
p("C05", "Conditional variances stay positive and bounded",
  "For every admissible parameter vector (positive omega, non-negative alpha, gamma, beta), every residual series and positive bounds, each conditional variance after the first is at least its lower bound and at most its upper bound plus the larger of 1000 and ln(variance/upper); every variance is strictly positive, so the log-likelihood is a finite number. The bounds computed from any non-constant residual series are strictly positive with lower < upper, and the backcast lies between the smallest and largest squared residual used.",
  ["inputs"], "all admissible parameters and residual series within the stated lengths",
  "An optimiser probes extreme parameters no test pins down; tests only see the final estimate.",
  [G, GH], [("bounds_check / variance_bounds", G), ("bounds_check", GH)], ["compute_variance, variance_bounds, backcast"])
p("C06", "Univariate log-likelihood is the Gaussian log density",
  "The log-likelihood of residuals e with conditional variances v is the sum of -0.5*(ln(2*pi) + ln v + e^2/v). The estimation objective of the GARCH and GJR-GARCH models is the negative of that log-likelihood at the residuals (returns minus the mean parameter, or the returns themselves in the zero-mean model) and at the variance series those residuals and the remaining parameters imply.",
  ["inputs", "configurations"], "all returns, parameters, backcasts and bounds; zero-mean and constant-mean configurations; both models",
  "Tests compare a few maximised values only when they are worse than another package's; the zero-mean configuration is never run.",
  [G], [("loglikelihood, loglikelihood_model", G+":GARCHModel")], ["loglikelihood", "loglikelihood_model"])
p("C07", "Univariate fit optimises the documented problem from the best start",
  "GARCH and GJR-GARCH estimation minimise the negative log-likelihood over the model's parameters in documented order, bounded by omega >= 1e-6, alpha, beta (and gamma) in [0, 1] (lower limits at most 1e-6), subject to persistence alpha + beta (+ gamma/2) <= 1. The starting mean is the sample mean and the starting variance parameters are the grid candidate (alpha and, for GJR, gamma from {0.01, 0.05, 0.1, 0.2}; persistence from {0.5, 0.7, 0.9, 0.98}; omega = sample variance*(1 - persistence)) that has the highest log-likelihood.",
  ["inputs", "configurations"], "all return series; zero-mean and constant-mean; both models",
  "A good optimiser hides a wrong start, bound or constraint on the few series tested.",
  [G], [("fit, preparation, starting_values", G)], ["fit()", "preparation()", "starting_values()"])
p("C08", "A fitted univariate model is self-consistent",
  "After a successful GARCH or GJR-GARCH fit the reported parameters are the optimiser's solution (mean 0 in the zero-mean model), the reported log-likelihood is that solution's log-likelihood, and the stored residuals and conditional variances are those implied by the reported parameters. Calling fit again on an estimated model returns the same parameters. If the optimiser fails, nothing is reported as estimated: the parameters stay NaN and the success flag stays false.",
  ["inputs", "histories"], "all return series and all optimiser outcomes (success or failure, any solution, any sequence of objective evaluations), repeated calls",
  "The optimiser's evaluation history varies by platform and data; tests look at one returned object and never at the stored series or a second call.",
  [G], [("fit", G+":GARCHModel, GJRGARCHModel")], ["fit() result, .parameters, .resids, .sigma2"],
  [("parameters", "estimates reported to the user", G), ("resids / sigma2", "series used by the multivariate models and LRMES", G)])
p("C09", "CCC log-likelihood is the bivariate normal log density",
  "The CCC-GARCH log-likelihood is the sum over time of the bivariate normal log density with variances from the two GARCH recursions and constant correlation rho; with rho = 0 it equals the sum of the two univariate log-likelihoods, and it is unchanged when the two series are swapped. The estimation objective is its negative at (mu1, omega1, alpha1, beta1, mu2, omega2, alpha2, beta2, rho), where each series' backcast and bounds come from that series' residuals.",
  ["inputs"], "all pairs of return series and admissible parameters",
  "One data set is fitted and the parameters compared at 1%.",
  [MG], [("loglikelihood, loglikelihood_model", MG+":GARCHModel_CCC")], ["loglikelihood", "loglikelihood_model"])
p("C10", "CCC fit optimises and reports the documented problem",
  "CCC estimation starts from the two univariate estimates and the sample correlation of their standardised residuals, bounds every omega below by 1e-6, every alpha and beta to [0, 1] and rho to [-0.99, 0.99], and constrains each series' own alpha + beta <= 1. On success it reports the optimiser's solution under the right names with its log-likelihood; on failure it reports no estimates; a repeated fit returns the same result.",
  ["inputs", "histories"], "all pairs of return series, all optimiser outcomes, repeated calls",
  "One data set is fitted once.",
  [MG], [("fit", MG+":GARCHModel_CCC")], ["fit()"])
p("C11", "DCC conditional correlations follow the documented recursion",
  "For any fitted pair of univariate models and any a, b, the conditional correlation is rho_t = q12/sqrt(q11*q22) with Q_t = (1-a-b)*Qbar + a*z_{t-1}z_{t-1}' + b*Q_{t-1}, Q_0 = Qbar, where z are the residuals divided by their conditional standard deviations and Qbar is the sample correlation matrix of z. This holds with and without the compiled extension.",
  ["inputs", "configurations"], "all residual and variance series, all a, b with a, b >= 0 and a + b < 1; both back ends",
  "No test runs a DCC model.",
  [MG, MH, UM], [("conditional_correlations", MG+":GARCHModel_DCC"), ("DCC::conditional_correlations", MH)], ["conditional_correlations(a, b)"])
p("C12", "DCC conditional correlations are valid correlations",
  "For any residuals, positive variances and a, b >= 0 with a + b < 1, every conditional correlation lies in [-1, 1]. Exchanging the two series leaves the correlations unchanged, flipping the sign of one series flips their sign, and a series paired with itself has correlation 1.",
  ["inputs", "configurations"], "all non-degenerate residual and variance series within the stated length; both back ends",
  "No test runs a DCC model; validity must hold for every point the optimiser or LRMES visits.",
  [MG, MH], [("conditional_correlations", MG), ("DCC::conditional_correlations", MH)], ["conditional_correlations(a, b)"])
p("C13", "DCC fit: two-step likelihood, start, constraints and report",
  "The DCC objective is minus the sum of the two univariate log-likelihoods and the documented correlation component, with correlations clipped to [-0.99, 0.99]. Estimation keeps the univariate estimates, starts from the grid pair (a, b) with the highest log-likelihood among pairs with a + b < 1, bounds a and b to [0, 1] with a + b <= 1, and reports the optimiser's a, b and total log-likelihood, for GARCH and GJR-GARCH margins alike. Already-estimated univariate models passed in are used as they are.",
  ["inputs", "histories"], "all pairs of series and estimated models, all optimiser outcomes; GARCH and GJR margins",
  "No test runs a DCC model.",
  [MG], [("fit, starting_values, loglikelihood_model", MG+":GARCHModel_DCC, GJRGARCHModel_DCC")], ["fit()", "loglikelihood_model", "starting_values"])
p("C14", "One LRMES simulation follows the documented GJR-DCC path",
  "Given innovations, last variances, residuals and correlation, model parameters and Qbar, one simulation compounds h one-step GJR-DCC forecasts of percentage log returns: a systemic event is reported exactly when exp(sum of market returns/100) - 1 < C, and then the firm's return exp(sum of firm returns/100) - 1 is returned, otherwise (0, no event). Firm shocks are sqrt(var)*(rho*z_m + sqrt(1 - rho^2)*xi) with variances and correlation updated each step from the simulated path. This holds with and without the compiled extension.",
  ["inputs", "configurations"], "all innovations, states and admissible parameters for h up to the stated bound; both back ends",
  "The SRISK test only runs it and checks no value.",
  [M+"_long_run_mes.py", M+"lrmes.hpp", M+"measures_module.cpp"], [("simulation", M+"_long_run_mes.py"), ("simulation", M+"lrmes.hpp")], ["LongRunMarginalExpectedShortfall.simulation"])
p("C15", "LRMES is minus the mean firm return over systemic paths",
  "The LRMES estimate is minus the average simulated firm return over the simulations with a systemic event, and 0 when none occurs. Each simulation draws h paired (firm orthogonal shock, market standardised residual) observations with replacement from the fitted model's history and starts from its last variances, residuals and correlation. Models are fitted to 100*ln(1 + raw return), an unsuccessful fit raises an error, and the result depends on the data, h, S, C and the seed only, not on global random state.",
  ["inputs", "histories"], "all return series, fitted states, bootstrap draws, S and h within the stated bounds",
  "The SRISK test only runs it and checks no value; bootstrap draws are random.",
  [M+"_long_run_mes.py"], [("__init__, estimate", M+"_long_run_mes.py")], ["estimate()"])
p("C16", "SRISK equals the documented capital shortfall",
  "For every firm SRISK = W*(k*(D + W)/W + (1-k)*LRMES - 1) = k*D - (1-k)*W*(1 - LRMES), with LRMES estimated from that firm's own returns and the market returns with the requested h, S, C and seed. Results come in firm order, a single firm gives a float, and the aggregate is the sum of the positive parts, for one firm as well as for many.",
  ["inputs", "configurations"], "all W > 0, D, k, LRMES values; one or several firms; aggregate or not",
  "The test runs it once and checks no value.",
  [M+"_srisk.py"], [("estimate", M+"_srisk.py")], ["SRISK.estimate"])
p("C17", "MES is the firm's mean return on the market's worst days",
  "MES is the mean firm return over the days on which the market return is strictly below the market's q-quantile (linear interpolation). It never leaves the range of the firm's returns, is unaffected by jointly reordering the days, scales with the firm's returns, and equals the market's own tail mean when the firm is the market.",
  ["inputs"], "all firm and market return series of the stated lengths and q for which some day is strictly below the quantile",
  "One random series is checked with one q.",
  [M+"_marginal_expected_shortfall.py"], [("estimate", M+"_marginal_expected_shortfall.py")], ["MarginalExpectedShortfall.estimate"])
p("C18", "SES is the fitted OLS-weighted combination of MES and leverage",
  "With b and c the OLS slopes of realised SES on a constant, MES and leverage over the training sample, the fitted SES is (b*MES_firm + c*LVG_firm)/(b + c). It does not depend on the order of the firms, on adding a constant to realised SES, or on a common scaling of realised SES.",
  ["inputs"], "all training samples with a full-rank design and b + c != 0",
  "One 3-firm sample is checked.",
  [M+"_systemic_expected_shortfall.py"], [("_bflv2012", M+"_systemic_expected_shortfall.py")], ["SystemicExpectedShortfall.estimate"])
p("C19", "Absorption ratio is the variance share of the top eigenvectors",
  "The absorption ratio is the sum of the largest n eigenvalues of the assets' covariance matrix over its trace, with n = fraction * number of assets rounded half up. It is 0 for n = 0 and 1 for n = all assets, never decreases in the fraction, lies in [0, 1], and does not depend on asset order, day order, added constants or a common scaling of returns.",
  ["inputs"], "all return matrices of the stated sizes with positive total variance, all fractions in [0, 1]",
  "One 3x6 matrix is checked at ten fractions.",
  [M+"_absorption_ratio.py"], [("estimate", M+"_absorption_ratio.py")], ["AbsorptionRatio.estimate"])
p("C20", "CCA put and systemic-risk contribution obey the Merton equations",
  "Given asset value and volatility that reproduce the firm's equity value and equity volatility, the put price is the Black-Scholes put on the assets struck at the default barrier, so equity plus discounted barrier minus put equals asset value. The systemic contribution is the put minus the CDS-implied put (1 - exp(-(spread/10000)*(barrier/risky debt - 1)*maturity))*barrier*exp(-r*maturity); it equals the put when the spread is 0 and never increases with the spread.",
  ["inputs"], "all positive equity, volatility, barrier, maturity, any rate and non-negative spread, and every root the solver may return",
  "One input is checked.",
  [M+"_contingent_claim_analysis.py"], [("estimate", M+"_contingent_claim_analysis.py")], ["ContingentClaimAnalysis.estimate"])
p("C21", "DIP equals the expected tail loss of the simulated loss distribution",
  "The distress insurance premium is computed from the simulated default counts (a bank defaults when its correlated normal draw is below the inverse-normal of its default probability), triangular(0.1, 0.55, 1) losses given default summed over the defaulting banks, and 1%-of-one-bank loss buckets: it is the sum, over buckets at or above threshold*number of banks, of bucket loss times its probability. It is finite, lies between 0 and the number of banks, does not increase when the threshold rises, works for any number of banks from one, and depends on the seed but never on global random state.",
  ["inputs", "configurations"], "all default probabilities, correlation matrices, random draws, thresholds and simulation counts within the stated bounds",
  "One 6-bank example with one seed is checked.",
  [M+"_distress_insurance_premium.py"], [("estimate", M+"_distress_insurance_premium.py")], ["DistressInsurancePremium.estimate"])
p("C22", "Kyle's lambda is the no-intercept regression slope times 1e6",
  "Kyle's lambda is 1,000,000 times sum(x*y)/sum(x^2) of returns y on signed dollar volume x without intercept, for sequences as well as arrays. It scales linearly with returns, inversely with volume, does not depend on observation order, and recovers k exactly when y = k*x.",
  ["inputs"], "all samples of the stated lengths with some non-zero volume",
  "No test calls it.",
  [M+"_kyle_lambda.py"], [("kyle_lambda", M+"_kyle_lambda.py")], ["kyle_lambda"])
p("C23", "Both PIN likelihoods are the documented Poisson-mixture likelihood",
  "For any buy and sell counts and any positive arrival rates with probabilities in (0, 1), the EHO and the Lin-Ke objectives are the negative log of the product over days of the Easley et al. mixture of Poisson densities (no news, bad news, good news) up to an additive constant that depends on the counts only: ln(B!)+ln(S!) omitted. The two objectives therefore agree with each other at every parameter vector.",
  ["inputs"], "all count series and interior parameters within the stated lengths",
  "No test calls PIN.",
  [M+"_probability_of_informed_trading.py"], [("loglikelihood_EHO2010, loglikelihood_LK2011", M+"_probability_of_informed_trading.py")], ["loglikelihood_EHO2010", "loglikelihood_LK2011"])
p("C24", "PIN estimation reports the best successful optimisation",
  "PIN estimation starts the optimiser from every Yan-Zhang grid point (alpha, delta, gamma in {0.1, 0.3, 0.5, 0.7, 0.9}: eB = gamma*mean buys, mu = (mean buys - eB)/(alpha*(1-delta)), eS = mean sells - alpha*delta*mu, skipping negative eS), with probabilities bounded to [0, 1] and rates to [0, inf). It reports the successful run with the highest finite log-likelihood, its parameters and PIN = alpha*mu/(alpha*mu + eB + eS), which lies in [0, 1]; if no run succeeds it reports no estimate, also when an earlier estimation on the same object succeeded.",
  ["inputs", "histories"], "all mean order flows, all outcomes of the individual optimisations, repeated estimations with either method",
  "No test calls PIN.",
  [M+"_probability_of_informed_trading.py"], [("estimate, init_params_grid_search, calculate_pin", M+"_probability_of_informed_trading.py")], ["PIN.estimate"])
p("C25", "blsprice gives Black-Scholes prices and put-call parity",
  "For all positive S, K, T, sigma and any r, q, the call and put are the Black-Scholes-Merton values with d1 = (ln(S/K) + (r - q + sigma^2/2)*T)/(sigma*sqrt(T)) and d2 = d1 - sigma*sqrt(T). Hence call - put = S*exp(-qT) - K*exp(-rT), prices scale with (S, K), swapping (S, q) with (K, r) swaps call and put, and each price lies between zero and S*exp(-qT) or K*exp(-rT).",
  ["inputs"], "all positive S, K, T, sigma and real r, q",
  "Two inputs are checked.",
  [M+"_option_price.py"], [("blsprice", M+"_option_price.py")], ["blsprice"])
p("C26", "Z-score is (ROA + capital ratio) over the ROA's standard deviation",
  "The Z-score is (ROA + equity-to-assets ratio) divided by the (population) standard deviation of past ROAs. It does not change when a constant is added to all past ROAs or their order changes, and is inversely proportional to their dispersion.",
  ["inputs"], "all ROA histories of the stated lengths that are not constant",
  "No test calls it.",
  [M+"_z_score.py"], [("z_score", M+"_z_score.py")], ["z_score"])
p("C27", "Spreads follow the documented formulas and weights",
  "The quoted spread is the plain average, and the effective and realised spreads the dollar-volume-weighted average (plain average when all dollar volume is zero), of the documented per-quote or per-trade percentage or log spread, signed by trade direction when directions are given as any array-like and absolute otherwise. Each result lies between the smallest and largest individual spread, and does not depend on trade order or on a common scaling of prices or of volumes.",
  ["inputs", "configurations"], "all positive prices and midpoints, non-negative volumes, +-1 directions; percentage and log; with and without directions",
  "No test calls these functions.",
  [M+"spread.py"], [("quoted_spread, effective_spread, realized_spread", M+"spread.py")], ["quoted_spread", "effective_spread", "realized_spread"])
p("C28", "Price impact formula; effective = realised spread + price impact",
  "The simple price impact is the dollar-volume-weighted average (plain average when all dollar volume is zero) of the documented percentage or log move of the midpoint after the trade, signed by trade direction when directions are given as any array-like and absolute otherwise. With directions, the effective spread of the same trades equals realised spread plus price impact exactly.",
  ["inputs", "configurations"], "all positive prices and midpoints, non-negative volumes, +-1 directions; percentage and log",
  "No test calls these functions.",
  [M+"price_impact.py", M+"spread.py"], [("simple_price_impact", M+"price_impact.py")], ["simple_price_impact"])
p("C29", "Order-book slope measures follow their definitions",
  "Ask and bid slope are the average over quotes of total depth over the distance from midpoint to the highest-level price. The slope difference averages (size5-size3)/|price5-price3| - (size3-size1)/|price3-price1|, for either side, and the scaled depth difference averages 2*(ask depth - bid depth)/(ask depth + bid depth), so it lies in [-2, 2] and flips sign when the sides are swapped. Quotes whose value is not-a-number are ignored in every average.",
  ["inputs"], "all sizes and prices of the stated shapes, missing values in any quote",
  "No test calls these functions.",
  [M+"lob_slope.py"], [("DGGW_*", M+"lob_slope.py")], ["DGGW_ask_slope", "DGGW_bid_slope", "DGGW_*_slope_difference", "DGGW_scaled_depth_difference"])
p("C30", "Modified Merton building blocks match the model's formulas",
  "The modified Merton modules import and compute what the reference model states: the loan payoff is the expected value of min(asset value, face value) given the factor, so it lies between 0 and both; the Merton objective is equity value and equity volatility minus what asset value and volatility imply, so it vanishes exactly when they reproduce both, and a negative trial value is penalised by its square; the face-value objective is the yield minus ln(face/loan value)/maturity; the smoother is a moving average over an even window with linearly extrapolated edges, so constant input is reproduced and linear input is shifted by half a step.",
  ["inputs"], "all positive values, maturities, correlations in (0, 1); smoother inputs of the stated lengths",
  "No test imports these modules.",
  [M+"modified_merton/loan_payoff.py", M+"modified_merton/merton_solution.py", M+"modified_merton/find_face_value_indiv.py", M+"modified_merton/fftsmooth.py"], [("loan_payoff, merton_solution, find_face_value_indiv, fftsmooth", M+"modified_merton/")], ["the functions' return values"])
p("C31", "Modified Merton bank valuation satisfies its accounting identities",
  "For every factor path, bank loan payoff = bank debt payoff + equity payoff, debt payoff is min(face value of debt, loan payoff after payout), the government absorbs g times the shortfall, and default is flagged exactly when nothing is left for equity after debt; the values today are the discounted averages of the payoffs, so asset value = debt value + equity value for the staggered and the single-cohort model; the loan payoff at debt maturity is the cohorts' average of the conditional expected, discounted payoffs, with rolled-over loans rescaled; equity and asset volatility are the log value differences over a two-sided step of a tenth of the factor volatility. The lookup builders store, for each grid point, the results computed with that point's parameters.",
  ["inputs"], "all parameters, shocks and payoffs within the stated sizes",
  "No test imports these modules.",
  [M+"modified_merton/mod_merton_computation.py", M+"modified_merton/mod_single_cohort_computation.py", M+"modified_merton/mod_merton_create_lookup.py", M+"modified_merton/mod_single_merton_create_lookup.py"], [("mod_merton_computation", M+"modified_merton/mod_merton_computation.py"), ("mod_single_cohort_computation", M+"modified_merton/mod_single_cohort_computation.py")], ["return values"])
p("C32", "Isolation forest scores follow their trees",
  "For every data set and every random choice, each observation's anomaly score is 2^(-(average path length)/c(tree size)), where its path through every tree follows the same split rule that partitioned the sample when the tree was grown (numeric below split value left, missing values smallest, strings by length then bytes) and ends with the standard c(n) correction in an unsplit leaf. Scores are in input row order, one per row.",
  ["inputs", "schedules"], "all small tables with numeric, missing and string cells, all random draws",
  "No test calls the isolation forest; trees are random and grown by threads.",
  IF, [("growTree, pathLength, anomalyScore", IF[0]), ("anomaly_scores", IF[3])], ["anomaly_scores"])
p("C33", "Isolation forest trees use fresh samples and depend on the seed only",
  "Every tree is grown on its own sample of min(tree size, rows) distinct rows, is not deeper than ceil(log2(tree size)), exactly the requested number of trees is grown, and tree i depends only on the data, its index and the random seed: not on other trees, the number of worker threads, how the threads interleave, or earlier calls.",
  ["inputs", "schedules", "histories"], "all small tables, forest and tree sizes, worker counts and repeated calls within the stated bounds",
  "No test calls the isolation forest; results depend on threads and machine.",
  IF, [("grow", IF[0])], ["anomaly_scores"])
p("C34", "Compiled extensions read only the memory they are given",
  "For any array the public Python classes can hand them (any length including one, non-contiguous views, slices), the compiled extensions read and write only initialised elements of the arrays they were passed, at the positions those arrays' strides define, return freshly allocated results of matching length, and never read past a parameter list, a string cell or an array.",
  ["inputs", "configurations"], "all array lengths within the stated bound, contiguous and strided layouts, all values",
  "An out-of-bounds or wrong-stride read rarely crashes; tests only pass contiguous arrays of long length.",
  [UM, GH, MH, M+"measures_module.cpp", M+"lrmes.hpp"] + IF[:3], [("argument parsing and buffer access", UM), ("iforest_wrapper", IF[2])], ["results and memory accesses of the extension functions"])
p("C35", "Callers' data are never modified",
  "No measure or model changes the arrays, lists or models the caller passes in: returns, prices, volumes, counts, correlation matrices, parameter lists and data frames hold the same values after the call, whatever the values and options, and the object's own copy of the data is not changed by estimating twice.",
  ["inputs", "histories"], "all inputs of the stated shapes, all options, single and repeated calls",
  "No test looks at its inputs after a call.",
  [G, MG, M+"_long_run_mes.py", M+"_srisk.py", M+"spread.py", M+"price_impact.py", M+"lob_slope.py"], [("in-place operators on arrays", "src/frds")], ["the caller's arrays after each call"])
p("C36", "Simulation measures are reproducible and isolate random state",
  "LRMES, SRISK, the distress insurance premium and the modified Merton computation draw random numbers only from a generator seeded with the seed they were given: the same arguments give the same result whatever was called before, different seeds can give different draws, and no call reads or changes numpy's or Python's global random state.",
  ["inputs", "histories"], "all inputs, seeds and call histories within the stated bounds",
  "Tests call each function with one seed, once.",
  [M+"_long_run_mes.py", M+"_srisk.py", M+"_distress_insurance_premium.py", M+"modified_merton/mod_merton_computation.py"], [("RandomState(seed) / default_rng(seed)", M)], ["results; numpy's global generator"])
p("C37", "The optimiser's solution is the global maximum of the likelihood",
  "The estimates reported by the GARCH-type models and PIN maximise the likelihood globally over the admissible parameters, not only locally.",
  ["inputs"], "all return series and order flows", "Local optima depend on the data; tests see a handful of series.",
  [G, MG, M+"_probability_of_informed_trading.py"], [("scipy.optimize.minimize", G)], ["fit()"])
p("C38", "Bundled data sets contain what they claim",
  "The bundled stock-return data set loads once and gives daily returns of the named tickers, correct against the market's historical prices.",
  ["inputs"], "all tickers and dates", "Correctness is relative to external market data.",
  ["src/frds/datasets/_stocks.py"], [("StockReturns.stocks_us", "src/frds/datasets/_stocks.py")], ["StockReturns.stocks_us"])
p("C39", "The modified Merton simulation study reports what its models say",
  "simulate() runs the modified Merton model once, on the 33 documented factor shocks and calibration with the number of paths asked for. Its table shows, for the shock whose mean borrower asset value is nearest exp(rT/2) and eight shocks up and down, the model's borrower and bank asset value, equity over equity plus debt, default probability and credit spread ln(discounted debt/debt value)/H, and the default probability N(-distance to default) and put-implied credit spread of the standard Merton model fitted to that shock's equity value and volatility (fitted asset volatility floored at 0.0001). The figures saved in the given directory (default: the current one) plot, per shock, the same series under their legends, the Merton probability at the model's own asset value and volatility, the single-cohort and single-borrower probabilities interpolated from their own look-up tables at (equity, equity volatility), and, for the central shock, payoffs at debt maturity against borrower assets.",
  ["inputs", "configurations"], "all results of the underlying models, fitted values, look-up tables and interpolated values at the table's shocks and others; output directory; number of paths",
  "No test runs the study, which takes an hour and prints rounded numbers nobody compares with the models behind them.",
  [M+"modified_merton/mod_merton_simulation.py"], [("simulate", M+"modified_merton/mod_merton_simulation.py")], ["printed table, saved figures, calls of the models"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
