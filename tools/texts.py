"""Hand-written texts of DESIGN.md (run: python3 tools/texts.py; python3 tools/design.py)."""
import json, os
T={}
def t(p,reach,cost,found=None,alarms=None): T[p]=dict(reach=reach,cost=cost,**({'found':found} if found else {}),**({'alarms':alarms} if alarms else {}))
t('P01',"The oracle integrates the defining double integral numerically, so every step of the analytic solution (expansion, coefficient extraction, special functions, the exchanged path) is judged by its end result. tau 1e-6..40, incidence up to 89.9 deg, series up to 12 terms (long ones separately). Very thin layers (tau<1e-3) are compared with an absolute floor of the cancellation error of the closed form.","10 s",alarms="the closed form cancels for tau→0 and for grazing angles; the tolerance follows the cancellation error instead of a fixed relative value.")
t('P02',"Shapes and limits are swept over scalar/1-D/2-D parameters and angles and every function type; a separate scenario goes to the extremes (tau 1e-5..50, grazing angles, strongly peaked functions).","10 s",alarms="`bsf=1` leaves no vegetation; the volume part is exactly zero there, a relative comparison of logarithms was removed.")
t('P03',"Complex-step derivatives of independent closed forms have no truncation error, so wrong factors of any size show.","8 s",found="The tau derivative of the volume part uses `1/mu_0 + mu_ex` (key dvolume_dtau-mu_ex). Not repaired because the stable test test_performfit pins results that depend on it. The check compares against this exact wrong formula for the known case only: any other deviation of the tau derivative is still a violation.")
t('P04',"All 16 unit/contribution combinations, n=1,2, are compared with derivatives of independent closed forms; p_theta_diff/brdf_theta_diff for random geometry strings; slopes and curvatures of fitted models (grouped, interpolated and shared parameters) against the same fit at shifted incidence angles.","8 s")
t('P05',"Normalisation and coefficients are decided by quadrature of the real function; expansions are compared term by term with quadrature projections.","15 s",alarms="unit hemispherical reflectance at nadir holds for both nadir normalisations only with the documented scattering-angle parameters; the statement was narrowed to them.")
t('P06',"Sums are formed from separately created component objects, so grouping/expansion mistakes of any order or number of components show up to the complete model with interaction.","15 s",alarms="components that share the scattering-angle parameters are expanded to the longest of their series (documented by the code); the oracle does the same.")
t('P07',"All 16 fixed/variable declarations, mono/bistatic pairs, reciprocity for random directions.","20 s")
t('P08',"Pairs of evaluations that differ only in compilation or parametrisation; no reference needed.","25 s")
t('P09',"Stale caches need sequences: 6-14 random operations on live objects, compared with freshly created objects after each re-assignment; in addition all untouched objects and the user's inputs are fingerprinted. A second scenario sends series of datasets with re-appearing, interpolated groups through one object.","25 s",alarms="changing a parameter definition of a fitted object keeps the old res_dict by design; results are compared after a new fit or an assigned result.")
t('P10',"Groups are recomputed by calendar arithmetic on the dataset; the vector given to the optimiser and re-distributed values are observed. Includes >1e18 joint groups, 2000-row datasets, very long labels.","12 s",alarms="integer frequencies with gaps in multi-year datasets: the split position follows array_split of unique dates (documented behaviour), the first oracle used fixed-size chunks.")
t('P11',"Every observation is identified by its unique incidence angle, so a misalignment of a single padded entry is decided exactly.","20 s",alarms="groups that differ within one date have no defined order for res_df (first value) and interpolation; those are excluded from these two comparisons only.")
t('P12',"The captured residual and derivative callbacks are compared entry by entry at random points.","20 s",found="Inherited from P03 (key dvolume_dtau-mu_ex): only columns of parameters entering tau, and only if they equal the known wrong formula.")
t('P13',"Real optimisations (300 per quick run incl. other properties) with tight and active bounds; recovery on noise-free data where the problem is well-conditioned (Jacobian singular values).","25 s",alarms="recovery is judged on reproduced data, not on parameters (degenerate parametrisations are legitimate).")
t('P14',"All four unit settings of the same object, by construction, re-assignment and reinit_object.","20 s")
t('P15',"A fingerprint (settings, dataset, results, predictions, internal arrays, optimiser input) is compared before/after every representation change, over generations and with failing dumps.","30 s",alarms="minimal dumps drop the Jacobian/residual of fit_output by design (documented); they are not part of the fingerprint then.")
t('P16',"Random chains of representations with a plain record as oracle.","10 s")
t('P17',"Files are written from a drawn definition, so the expected value and type of every entry is known; damaged variants must be refused.","20 s",alarms="values that configparser itself treats as comments/interpolation are escaped by the writer of the files.")
t('P18',"Completion order is permuted with reader delays; chunk/cache/flush sizes around the boundaries; slow writers, slow combiners and a store that stalls for many seconds injected through the public init_func; the reader event log shows that every site was read exactly once. Distinct interleavings = distinct completion orders in the evidence (`distinct_nontrivial`). Bound: up to 14 real sites or 250 pipeline items, ≤5 workers, ≤4 combiners, ≤3 writers.","170 s",alarms="the number of times worker init functions run and the number of workers actually seen depend on scheduling and are only counted.")
t('P19',"Histories of 2-4 runs and runs ended by SIGKILL/SIGTERM at points controlled by the readers. A kill *during* an HDF5 write is not exercised: PyTables gives no atomicity and rt1 promises none.","160 s")
t('P20',"Every storage option and definition form; loaded fits must have the fingerprint of the stored ones.","60 s")
t('P21',"Stores are written by the oracle, so the rows of every site are known; chunk sizes around the number of sites.","15 s")
t('P22',"Textbook formulas on pairs formed by observation identity.","15 s",alarms="pairs with repeated dates in both series have no defined partner: only same-index pairs are compared then.")
t('P23',"Each exported number is recomputed for the observation it is labelled with; piecewise, repeated, dump- and store-based exports.","140 s")
t('P24',"Exact equality with independent fits; call logs of broadcast calls; before/after snapshots of the configurations that must not change.","20 s")
t('P25',"Direct recomputation plus recombination laws; edge cases (empty, single, generators).","5 s")
t('P26',"Fault plans over all stages and kinds; process group must end; all other sites equal to a fault-free sequential evaluation.","150 s",found="A result that cannot be stored in HDF5 at all (object column) stops the writer (key unstorable): the containment needs a redesign of the writer. SystemExit/KeyboardInterrupt in a worker are outside the statement (not derived from Exception).")
t('P27',"Each problem is evaluated twice, once with hostile names and permuted order; needs no reference.","25 s",alarms="names of symbols of the model itself (theta_0, tau, n, ...) and of functions used in the expressions are excluded in the statement.")
t('P28',"What a figure shows is read back from its artists (lines, markers, collections, error bars) and compared with point sets that are recomputed row by row; sliders, buttons and animation steps are driven through their callbacks. Bound: the layout, labels and colours of the figures are not judged.","20 s",alarms="relative residuals with both signs have no defined share in fit_errors; components that are not finite in dB are not drawn by printsig0analysis. Both are excluded from the comparison only.")
t('P29',"A model of the history (original file, overriding definitions, recorded copies per folder) predicts the configuration, specifications, modules, prompts and folders after every step; edits between the steps make every wrong source visible. Removing folders is redirected to a stand-in that cannot leave the scratch folder. Bound: set-ups in worker processes and concurrent set-ups are not driven.","8 s")
json.dump(T,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'design_texts.json'),'w'),indent=0)
