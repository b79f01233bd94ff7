"""source of properties.jsonl and MANIFEST.json: python tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop('R01', 'Membership probabilities are well-formed for every galaxy',
     'For any galaxy counts, backgrounds, radii and input weights, every membership probability and radial weight returned for a '
     'cluster lies between 0 and 1, the probability is signal/(signal+background), and the final weight is exactly '
     'probability x input weight x radial weight. Undefined ratios (zero signal, infinite background) give probability 0, never NaN; '
     'galaxies outside the cluster radius get no weight, and the input arrays are never modified.',
     ['inputs'], 'all array lengths, counts >= 0 (including 0 and infinite background), radii, weights in [0,1], radius parameters and softening widths',
     'test_solver runs one recorded galaxy list; zero counts, infinite backgrounds, hard radius cuts and empty lists are never sampled.',
     ['redmapper/solver_nfw/nfw_weights.c', 'redmapper/solver_nfw/solver_nfw.c', 'redmapper/solver_nfw/solver_nfw_lib.py'],
     [('nfw_weights', 'redmapper/solver_nfw/nfw_weights.c'), ('solver_nfw', 'redmapper/solver_nfw/solver_nfw.c')])
prop('R02', 'Richness solves the richness equation or is flagged',
     'For any inputs the richness returned by the solver lies in [1, 2000] and brackets, within the tolerance, a sign change of '
     '(sum of member weights plus the continuum term at that richness) minus the richness, with the radius belonging to that richness; or else richness '
     'and radius are both -1 and no solution above 1 lies in the final bracket. The search always terminates, and arrays whose lengths disagree are rejected.',
     ['inputs'], 'all galaxy lists, radius relations, softening widths and continuum polynomial coefficients',
     'test_solver compares one recorded solution; the bracket invariant and the no-solution flag need every input.',
     ['redmapper/solver_nfw/solver_nfw.c', 'redmapper/solver_nfw/solver_nfw_lib.py'],
     [('bisection in solver_nfw', 'redmapper/solver_nfw/solver_nfw.c'), ('length checks in Solver.__init__', 'redmapper/solver_nfw/solver_nfw_lib.py')])
prop('R04', 'Chi-squared is the exact colour-model distance in every calling mode',
     'For each galaxy and redshift, in all three calling modes and for any array memory layout, the returned chi-squared is the colour offset from the '
     'red sequence (with slope and luptitude correction) weighted by the inverse of intrinsic + photometric + reference-magnitude '
     'covariance, and the log-likelihood adds the determinant term. Covariances that are not positive-definite are repaired by '
     'raising small eigenvalues and too narrow ones are flagged by a huge value. Inputs whose sizes do not fit together are rejected before any computation.',
     ['inputs'], 'all numbers of galaxies/redshifts, 1-4 colours, all matrices, errors, optional arguments and memory layouts',
     'test_chisq evaluates one recorded catalogue in one layout with well-conditioned covariances.',
     ['redmapper/chisq_dist/chisq_dist.c', 'redmapper/chisq_dist/chisq_dist_lib.py'],
     [('compute_chisq', 'redmapper/chisq_dist/chisq_dist_lib.py'), ('chisq_dist', 'redmapper/chisq_dist/chisq_dist.c'),
      ('check_and_fix_covmat', 'redmapper/chisq_dist/chisq_dist.c')])
prop('R12', 'Numerical building blocks respect their mathematical contracts',
     'The filter functions and numerical helpers return what their definitions say on every input: detection and luminosity weights lie in [0,1], '
     'probability densities are non-negative with the stated normalisation, interpolation reproduces its nodes, '
     'spline evaluation passes through its knots, and cloud-in-cell gridding conserves the total weight.',
     ['inputs'], 'all array lengths and values in the stated domains',
     'test_utilities checks a few recorded values of each function.',
     ['redmapper/utilities.py'],
     [('calc_theta_i, interpol, CubicSpline, chisq_pdf, schechter_pdf, nfw_pdf, make_nodes, cic, sample_from_pdf', 'redmapper/utilities.py')])

prop('R05', 'Backgrounds are densities looked up and built per grid cell without loss',
     'Looking up the chi-squared, redshift or colour background of any galaxy returns the density stored in the grid cell the galaxy falls in (linearly '
     'interpolated where the code says so), non-negative on a non-negative table, and infinite outside the tabulated range, never the density of another cell. A table built from a '
     'catalogue counts every galaxy in range once, divided by the cell sizes and area.',
     ['inputs'], 'all tables, grids, galaxies and cluster redshifts, on cell edges and outside the range',
     'test_background compares a recorded table at a few points away from the grid edges.',
     ['redmapper/background.py', 'redmapper/color_background.py'],
     [('Background.sigma_g_lookup', 'redmapper/background.py'), ('ZredBackground.sigma_g_lookup', 'redmapper/background.py'),
      ('BackgroundGenerator, ZredBackgroundGenerator', 'redmapper/background.py'), ('ColorBackground', 'redmapper/color_background.py')])
prop('R06', 'The red-sequence model is looked up at the right redshift and magnitude',
     'For any redshift or magnitude, the index into the red-sequence tables is the nearest grid node, clipped to the table ends; '
     'the model colours, slopes, covariances and luminosity function are those of that node; and the chi-squared computed through the model uses, for each '
     'galaxy/redshift pair, that galaxy\'s own colours, errors and magnitude and that redshift\'s own colours, slope and covariance.',
     ['inputs'], 'all redshifts and magnitudes inside and outside the grid, all array sizes, any number of colours',
     'test_redsequence checks a recorded parameter file at a few redshifts.',
     ['redmapper/redsequence.py'],
     [('RedSequenceColorPar', 'redmapper/redsequence.py')])
prop('R08', 'Catalogues behave as tables: selection, growth and files keep rows intact',
     'Selecting, reordering, extending, appending and merging a catalogue keeps every remaining row\'s values together in every column; '
     'assigning a column or an entry changes exactly that column or row; adding fields keeps existing data; and writing a catalogue to a file '
     'with row indices, then reading it, returns exactly the selected rows.',
     ['inputs', 'histories'], 'all catalogue lengths including 0 and 1, all column sets, index arrays and masks',
     'the unit tests exercise catalogue operations on one recorded file.',
     ['redmapper/catalog.py'],
     [('DataObject, Entry, Catalog', 'redmapper/catalog.py')])
prop('R09', 'Galaxies are split into files and read back completely and exactly once',
     'Galaxies ingested in any number of appends, serially or by several makers in parallel mode, end up each in exactly one pixel file, and the master table lists every occupied pixel with its count. '
     'Reading a whole catalogue, a set of pixels, or a pixel with a border returns every galaxy in that region once, with its own values and its own '
     'redshift record, after exactly the requested magnitude and chi-squared cuts. Unusable galaxies (not finite, off the sky, bad magnitudes, '
     'missing columns, repeated ids) and impossible requests are rejected, and a finished catalogue is never overwritten.',
     ['inputs', 'histories'], 'all galaxy lists occupying at least two table pixels, splits into appends, pixelisations, sub-pixel requests, borders and cuts',
     'the ingestion test splits one recorded file in one order and reads it back whole.',
     ['redmapper/galaxy.py'],
     [('GalaxyCatalogMaker', 'redmapper/galaxy.py'), ('GalaxyCatalog.from_galfile', 'redmapper/galaxy.py'), ('get_subpixel_indices', 'redmapper/galaxy.py')])

prop('R03', 'The richness measured for a cluster is that of its own neighbours',
     'The neighbours of a cluster are exactly the catalogue galaxies inside the search radius, each with its own separation, chi-squared, signal (luminosity x profile x '
     'chi-squared density at the cluster redshift) and background, and the richness is the one for which radius, scale factor, membership probabilities and mask correction are consistent, '
     'with an error that combines membership and mask noise. Without a solution richness, memberships and scale are flagged and there are no members; neighbours that are not considered never become members. '
     'Changing the redshift updates every quantity that depends on it, and neither a cluster nor its copies change the galaxy catalogue or each other.',
     ['inputs', 'histories'], 'all neighbour lists including empty ones, redshifts, masks, radius relations and options',
     'test_cluster checks one recorded cluster with one set of options.',
     ['redmapper/cluster.py'],
     [('Cluster.calc_richness, find_neighbors, set_neighbors, redshift setter, calc_lambdacerr, compute_bkg_local', 'redmapper/cluster.py'), ('ClusterCatalog', 'redmapper/cluster.py')])
prop('R07', 'Percolation never gives a galaxy out more than once in total',
     'Clusters are processed most likely first, and each is offered of every galaxy only what earlier clusters have left of it, so that for any overlapping clusters the '
     'summed claims on a galaxy never exceed one. A cluster that fails (used-up seed or centre, no centre, no richness, too poor, no redshift) is flagged, claims nothing and has no members; every other one keeps the '
     'centre, redshift and richness last measured, all at the same centre. The final catalogue has exactly the clusters above the cut with all of their members and no others, each member under its own cluster\'s id.',
     ['inputs', 'histories'], 'all cluster lists in any order with any overlaps, any failure of any cluster at any step, any number of central candidates, one or two passes',
     'the percolation test compares a few recorded clusters (and is not stable here); orders, overlaps and failures are not sampled.',
     ['redmapper/cluster_runner.py', 'redmapper/run_percolation.py'],
     [('ClusterRunner.run, _setup, _postprocess, _generate_mem_match_ids', 'redmapper/cluster_runner.py'), ('RunPercolation', 'redmapper/run_percolation.py')])
prop('R10', 'Each cluster-finding stage keeps usable clusters and flags the others',
     'The first-pass, likelihood, catalogue, random-point, colour-member and redshift-scan stages take exactly the usable inputs with their own values, report a cluster as bad exactly when it '
     'fails that stage\'s criteria (too poor, too few members, no or out-of-range redshift, masked), and give every other cluster the last consistent richness, redshift and likelihood. '
     'Iterations start from the previous redshift, stop on convergence and never exceed the allowed number; input richnesses, ids and the configuration are never changed.',
     ['inputs', 'histories'], 'all clusters and inputs, any outcome of each richness and redshift measurement, all iteration settings',
     'the runner tests compare one recorded run each (most are not stable here).',
     ['redmapper/run_firstpass.py', 'redmapper/run_likelihoods.py', 'redmapper/runcat.py', 'redmapper/run_randoms_zmask.py', 'redmapper/run_colormem.py', 'redmapper/run_zscan.py'],
     [('RunFirstPass', 'redmapper/run_firstpass.py'), ('RunLikelihoods', 'redmapper/run_likelihoods.py'), ('RunCatalog', 'redmapper/runcat.py'),
      ('RunRandomsZmask', 'redmapper/run_randoms_zmask.py'), ('RunColormem', 'redmapper/run_colormem.py'), ('RunZScan', 'redmapper/run_zscan.py')])
prop('R13', 'Central candidates are the most likely galaxies with honest probabilities',
     'A centre is found exactly when a neighbour qualifies: the brightest qualifying one for the brightest-galaxy centring, a point inside the cluster or a member for the random ones, and for the calibrated '
     'centring the most probable galaxies, best first and without repeats. Their probabilities of being the centre are non-negative and sum to one (less the chance of a missed centre), the rest being shared between satellite and foreground. '
     'Unused slots stay empty, and positions are those of the candidates.',
     ['inputs'], 'all neighbour lists including ones without any candidate, all settings of spectroscopic redshifts, luminosity weighting and redshift correction, any number of slots',
     'test_centering compares one recorded cluster per algorithm.',
     ['redmapper/centering.py'],
     [('CenteringBCG, CenteringWcenZred, CenteringRandom, CenteringRandomSatellite', 'redmapper/centering.py')])

prop('R14', 'Photometric redshifts are the likelihood maximum with honest errors',
     'A galaxy gets the redshift that maximises its colour likelihood times volume on the red-sequence grid, with chi-squared, error and second-best values belonging to that solution, and a cluster the redshift that maximises the summed membership-weighted likelihood of its '
     'neighbours, with a normalised redshift distribution around it. Impossible inputs (no usable likelihood, off the grid, no members) give the flag values and never a plausible redshift; calibration corrections move redshift, error and distribution together. '
     'Running a whole catalogue gives every galaxy its own result, in order, whatever the split into pixels or workers.',
     ['inputs', 'histories'], 'all galaxies, neighbour lists, redshift grids, corrections and splits of the work',
     'test_zred and test_zlambda compare a few recorded galaxies and one cluster (the latter not stable here).',
     ['redmapper/zlambda.py', 'redmapper/zred_color.py', 'redmapper/zred_runner.py'],
     [('Zlambda, ZlambdaCorrectionPar', 'redmapper/zlambda.py'), ('ZredColor', 'redmapper/zred_color.py'), ('ZredRunCatalog, ZredRunPixels', 'redmapper/zred_runner.py')])
prop('R15', 'Mask, depth and volume limit answer for the position that was asked',
     'Footprint, good fraction, depth and maximum redshift of any position are those stored for the map pixel it falls in, and positions outside the map, in a hole or with unusable depth are reported as masked or with the flag value, never with a neighbour\'s value. '
     'Mask galaxies are placed around the cluster at their own distances, the mask correction lies between 0 (unmasked) and the whole profile and its error is never negative. '
     'Areas as a function of redshift or magnitude never increase and are counted from the pixels in the requested region, each once.',
     ['inputs', 'configurations'], 'all maps, positions, regions, borders, mask galaxy samples and depth parameters',
     'test_mask, test_depthmap and test_volumelimit look up a few recorded positions of one map (and are not all stable here).',
     ['redmapper/mask.py', 'redmapper/depthmap.py', 'redmapper/volumelimit.py', 'redmapper/utilities.py'],
     [('HPMask, Mask', 'redmapper/mask.py'), ('DepthMap', 'redmapper/depthmap.py'), ('VolumeLimitMask, VolumeLimitMaskFixed', 'redmapper/volumelimit.py'),
      ('apply_errormodels, get_healsparse_subpix_indices', 'redmapper/utilities.py')])
prop('R11', 'A run split into pixels, stages and tasks gives one complete catalogue',
     'A run goes through its stages in order on the stage before\'s own output, splits the sky into pixels that cover the requested region, and runs every pixel once with its own configuration, whatever the number of workers and whatever stages or pixels an interrupted run already finished. '
     'Consolidation keeps every cluster of every pixel file exactly once, in the pixel it belongs to and above the richness cut, with new unique ids carried by exactly its own members and nothing else. '
     'A pixel task writes the files that the other tasks and the consolidation look for, and of several contenders for a lock file exactly one gets it at a time.',
     ['inputs', 'histories', 'configurations', 'crash_points'], 'all runs, splits, worker counts, stages already done, file names, richness cuts and catalogues',
     'The runner tests need external data files and are not among the stable tests; each takes one tiny region through one path.',
     ['redmapper/pipeline/redmappertask.py', 'redmapper/pipeline/redmapperconsolidatetask.py', 'redmapper/pipeline/zredtask.py', 'redmapper/redmapper_run.py', 'redmapper/utilities.py'],
     [('RunRedmapperPixelTask, RuncatPixelTask, RunZScanPixelTask, RunZmaskPixelTask', 'redmapper/pipeline/redmappertask.py'), ('RedmapperRun', 'redmapper/redmapper_run.py'), ('RedmapperConsolidateTask, RuncatConsolidateTask', 'redmapper/pipeline/redmapperconsolidatetask.py')])
prop('R17', 'Red galaxy samples and random points follow the selection they stand for',
     'A galaxy enters a redMaGiC sample exactly when it is brighter than its limit at its own corrected redshift, its chi-squared is below the fitted cut there, and it lies inside the volume limit; the cost the calibration minimises is the departure of their comoving density from the requested one in every redshift bin. '
     'Random points fall only where their galaxy or cluster could have been found: inside the footprint, volume limit and requested region, with redshift and richness of a real galaxy or cluster, and weights that make up for the losses. '
     'Every requested point is generated, and splitting them by redshift or region loses and repeats none.',
     ['inputs', 'configurations'], 'all samples, calibrations, volume limits, masks, random seeds and splits',
     'test_redmagic and test_randoms take one recorded sample (and need external data files here).',
     ['redmapper/redmagic/redmagic_selector.py', 'redmapper/redmagic/redmagic_calibrate.py', 'redmapper/redmagic/redmagic_randoms.py', 'redmapper/redmagic/redmagictask.py', 'redmapper/randoms.py', 'redmapper/fitters.py'],
     [('RedmagicSelector', 'redmapper/redmagic/redmagic_selector.py'), ('RedmagicParameterFitter', 'redmapper/fitters.py'),
      ('GenerateRandoms, RandomWeigher, RandomCatalogMaker', 'redmapper/randoms.py'), ('RedmagicGenerateRandoms', 'redmapper/redmagic/redmagic_randoms.py')])
prop('R16', 'Calibration fits answer for exactly the data, model and files given to them',
     'The cost every calibration fit minimises is the stated likelihood of the data it was given, unchanged by being evaluated, and its answer comes back as the parameters it was asked for with bad data giving the flag values, never a plausible model. '
     'The training samples are exactly the galaxies and clusters that satisfy the stated cuts, with their own redshifts and probabilities, and the derived tables (error model, volume factor, off-diagonal terms, redshift corrections, centring parameters) follow from the fits. '
     'A calibration iteration runs its steps in order on the files of the step before, skips only steps whose output exists, and the run configuration it writes names files that exist.',
     ['inputs', 'histories', 'configurations'], 'all training samples, depths, nodes, flags, starting values and states of an interrupted calibration',
     'The calibration tests compare one recorded fit each (several need external data files and are not stable here).',
     ['redmapper/fitters.py', 'redmapper/depth_fitting.py', 'redmapper/calibration'],
     [('MedZFitter, RedSequenceFitter, CorrectionFitter, EcgmmFitter, ErrorBinFitter', 'redmapper/fitters.py'), ('DepthFunction, applyErrorModel, calcErrorModel, DepthLim', 'redmapper/depth_fitting.py'),
      ('ZLambdaCalibrator, WcenCalibrator, PrepMembers, SelectSpecSeeds, SelectSpecRedGalaxies, RedSequenceCalibrator, RedmapperCalibrator', 'redmapper/calibration')])
prop('R18', 'Every configuration value is the one given, and inconsistency is refused',
     'Each configuration variable has the value given in the file or dictionary, else the value read from the galaxy file, else its default, with array variables always arrays; unknown variables, missing required ones, arrays of the wrong length and contradictory combinations are refused, and nothing else is. '
     'Derived values (border, cushioned redshift range, band indices, centring parameters, file names) follow from the given ones, and a configuration written out reads back equal.',
     ['inputs', 'configurations'], 'all dictionaries, galaxy file headers, array lengths and file names',
     'test_config reads two recorded configurations.',
     ['redmapper/configuration.py'],
     [('Configuration, ConfigField, DuplicatableConfig', 'redmapper/configuration.py')])

TECH = 'contract-based deductive verification: symbolic execution of the real source against pre/postconditions, z3/cvc5'
TECHB = 'contract-based deductive verification (symbolic execution, z3/cvc5) of the functions within reach; bounded contract checks stand in for the others'
NA = []


def main():
    sys.path.insert(0, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from rmv.check import load_contracts
    cons = load_contracts()
    have = {}
    for c in cons:
        have.setdefault(c.prop, []).append(c)
    ids = [p['id'] for p in P]
    for k in have:
        assert k in ids, k
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            if p['id'] in have or p['id'] in [n['property'] for n in NA]:
                assert len(p['title']) <= 80, p['id']
                f.write(json.dumps(p) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] not in have:
            continue
        cs = [c for c in have[p['id']] if not c.finding]
        conc = [c for c in cs if c.kind == 'conc']
        note = '%d contracts on the real functions; every obligation is regenerated from /repo and discharged on each run, for all inputs and sizes.' % (len(cs) - len(conc))
        if conc:
            note += ' Bounded stand-ins (concrete, seeded, not counted as proved): ' + ', '.join(c.name for c in conc) + '.'
        note += ' Reals for floats, numpy/GSL/libm through assumed specifications; contracts that cannot be discharged on changed code fall back to the bounded run and are reported as such in the evidence.'
        checks.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'],
                           thorough_cmd='./check %s --tier thorough' % p['id'], technique=TECH if 2 * len(conc) <= len(cs) else TECHB,
                           level='proof' if 2 * len(conc) <= len(cs) else 'exploration', level_note=note))
    man = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=NA)
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    print(len(checks), 'checks')


if __name__ == '__main__':
    main()
