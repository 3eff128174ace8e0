NOTES.update({
 "C01": "proved for every sample size and every sample for all univariate estimators (fit through the public entry point), the scaler over any estimator with that contract, Box-Cox and Yeo-Johnson fit/transform; non-degenerate case of the minimal-scale switch assumed",
 "C02": "proved for every n, p, every sample and every permutation: univariate estimators, adjusted boxplot, scaler, Box-Cox/Yeo-Johnson transformer, OGK (any number of iterations, with and without reweighting), Kendall, wrapping; the 'auto' transform choice is only run",
 "C23": "ownership and history analysis of every public class over all paths, any data: no read of earlier state in fit, results set on every path, configuration not written, other calls write nothing that is read later",
 "C24": "provenance analysis of every public function and method over all paths: each random number comes from a generator seeded in that very call; library determinism assumed",
 "C25": "ownership and frame analysis of every public function and method over all paths, for array, frame, series and integer inputs: no write to memory reachable from the arguments, imputed or cleaned results share none",
 "C17": "partly: proved for every n, p, data and scales for OGK (0 to 3 iterations, with reweighting, with assume_centered), Kendall and wrapping; the other estimators of the statement are run-time contracts (bounded)",
 "C18": "partly: proved for every n, p, data and shift for OGK (0 to 3 iterations, with reweighting, with assume_centered), Kendall and wrapping; the other estimators of the statement are run-time contracts (bounded)",
 "C13": "proved function by function for every n, p, data and tolerance: subset statistics, concentration step, consistency correction, selection of the best refined candidate, convergence condition and the final reweighted estimate of FAST-MCD (any number of partitions and candidates) and DetMCD; that a concentration step never raises the determinant is the published theorem, assumed",
 "C12": "proved function by function for every n, p, data and tolerance: the h-subset and loss of a model, the concentration step, the iteration until the loss stops falling, the initial steps of every start, the choice of the best refined candidate and the reweighted fit and scale of FAST-LTS; that a concentration step never raises the loss is the published theorem, assumed",
 "C28": "proved function by function for every n, p, data, rho function and configuration: MM refinement step and scale, S-regression scale iteration, refinement step, pairing of models and scales in the starts and the refined candidates (loop invariant), best candidate reported; refinement steps of S-regression assumed not to raise LinAlgError in the final phase",
 "C15": "proved for every n, p, data, location and scatter: Mahalanobis distances (formula, zero at the center, affine invariance), and for every covariance class and configuration that fit reports covariance, precision, location and both distances that belong together; matrix algebra of the inverse assumed",
 "C16": "proved for every n, p and data: symmetry of every estimate (InitialDDCW only run), congruence form of OGK, spectral form of the eigenvalue truncation, unit diagonals and covariance-correlation relations, Kendall variances, back-scaling of the cellwise MCD; a sample covariance is positive semidefinite and the spectral theorem are assumed",
})
NOTES.update({
 "C19": "proved function by function for every n, p, data and fitted state: residuals and flags, predict on the training data returns the flags, residuals and row flags of the fit, imputation cell by cell, refusals; the correlation, slope and neighbour prediction routines are contracts (functions of the cleaned standardized data)",
 "C20": "proved function by function for every n, p, data and configuration: update of the indicators (missing cells flagged, at least h kept, only updated column changes), parameter update, the iteration with its rejection step (objective never above the one kept, all reported estimates of the same iteration), imputation; the order statistic h of a ranking names h distinct rows (assumed)",
 "C21": "proved function by function for every n, p, data, pattern, location and scatter: conditional means and variances (some, no, all cells missing), flagging criterion, predictions over all patterns, inverse of a principal submatrix, likelihood; the Schur-complement identity of the inverse is assumed",
})
NOTES.update({
 "C22": "proved for every n, p, k and data: scores, projection (idempotent, residuals orthogonal), outlier-map distances for any orthonormal components, and that the fits of PCALocantore and ROBPCA (any option) give orthonormal components, one explained variance each, in their order; the loadings of sklearn's PCA and eigh's eigenvectors are orthonormal (assumed)",
 "C29": "partly: proved for every n, p, data: start at the mean, every iterate and the result are one Vardi-Zhang step (a convex combination of the data and the last iterate), both exit conditions (optimality at an observation; movement below 1e-7); the step's descent of the sum of distances is the published theorem; that yet another step moves less than the tolerance is run-time only",
})
NOTES.update({
 "C14": "proved function by function for every n, p, data, b, c and positive constant: each function of FAST-LTS (initial model, h-subset, C-step, loss, convergence loop, starts, fit with and without reweighting, predict) under y + Xb + c and s y, and the MM fit under y + Xb + c for any rho, number of iterations and equivariant initial fit; equivariance of least squares itself assumed, the LTS tolerance is read as scaling with the loss",
})
