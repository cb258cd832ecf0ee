# Registry: which symbolic runs decide which property.
PROPS = {}
COMMON = ['symbolic execution of unoptimised clang-18 IR of the current sources (mem2reg/inlining only); libstdc++ list/tree/hash/string internals, OpenCV containers and OpenCV/Ceres numerics are modelled in /verif/models',
          'every reported counterexample is replayed on the natively compiled sources before it counts']
def prop(pid, harness, quick, thorough=None, assumptions=(), **kw):
    PROPS[pid] = dict(harness=harness, quick=quick, thorough=thorough or quick, assumptions=COMMON + list(assumptions), **kw)
def job(entry, *defs, timeout=120, bounds='', reach=(), flags=(), **kw):
    return dict(entry=entry, defs=list(defs), timeout=timeout, bounds=bounds, reach=list(reach), flags=list(flags), **kw)

GB = 'undirected graphs with up to %d vertices, every edge set, two naming schemes, both insertion orders, new or reused graphs'
prop('P01', 'graph.cpp', [job('h_components', '-DSX_NV=4', bounds=GB % 4, reach=['components'])],
     [job('h_components', '-DSX_NV=5', timeout=1800, bounds=GB % 5, reach=['components'])])
prop('P02', 'graph.cpp', [job('h_path', '-DSX_NV=3', bounds=GB % 3 + ', every non-negative real weight up to 1000', reach=['connected', 'unconnected']), job('h_path_unknown', '-DSX_NV=3', bounds=GB % 3, reach=['unknown'])],
     [job('h_path', '-DSX_NV=4', timeout=3000, bounds=GB % 4 + ', every non-negative real weight up to 1000', reach=['connected', 'unconnected']), job('h_path_unknown', '-DSX_NV=4', bounds=GB % 4, reach=['unknown'])],
     ['edge weights are exact reals (no rounding)'])

prop('P03', 'observe.cpp', [job('h_insert', '-DSX_K=3', bounds='2 cameras, 2 boards, histories of up to 3 recorded board views, any frame indices, any image positions and corner ids', reach=['full history', 'short history'])],
     [job('h_insert', '-DSX_K=4', timeout=3000, bounds='2 cameras, 2 boards, histories of up to 4 recorded board views, any frame indices, any image positions and corner ids', reach=['full history', 'short history'])])
prop('P04', 'observe.cpp', [job('h_detect', '-DSX_NX=4', bounds='4x2-corner board, every subset of detected corners, any visibility threshold in [0,1], any image positions, second board present or not, boards of equal or different sizes and square sizes', reach=['accepted', 'rejected'])],
     [job('h_detect', '-DSX_NX=5', timeout=3000, bounds='5x2-corner board, every subset of detected corners, any visibility threshold in [0,1], any image positions, boards of equal or different sizes', reach=['accepted', 'rejected'])])
prop('P05', 'observe.cpp', [job('h_keypoints', '-DSX_K=2', bounds='2 cameras, 2 boards, 2 board views of 2 corners, any frames, positions, ids, image sizes', reach=['round trip'])],
     [job('h_keypoints', '-DSX_K=3', timeout=3000, bounds='2 cameras, 2 boards, 3 board views of 2 corners, any frames, positions, ids, image sizes', reach=['round trip'])])
prop('P06', 'observe.cpp', [job('h_schedule', '-DSX_FR=2', bounds='2 images of one camera, 2 boards, every visibility pattern, every interleaving of the per-image tasks at lock operations; lockset race detection on every access', reach=['several boards', 'few boards'])],
     [job('h_schedule', '-DSX_FR=3', timeout=3000, bounds='3 images of one camera, 2 boards, every visibility pattern, every interleaving of the per-image tasks at lock operations; lockset race detection on every access', reach=['several boards', 'few boards'])])
prop('P07', 'observe.cpp', [job('h_filelist', bounds='2 cameras, up to 3 files per folder, every mix of two image and two other extensions', reach=['images', 'no images'])])
prop('P08', 'boards.cpp', [job('h_layout', bounds='up to 3 printed boards of 3-5 x 3-6 squares, per-board counts and sizes on or off, any square size in (0.001, 1000), subsets of boards', reach=['counts per board', 'uniform counts', 'subset', 'all boards']), job('h_images', bounds='up to 3 boards', reach=['images'])])
prop('P09', 'boards.cpp', [job('h_markers', bounds='up to 4 printed boards, each 3-5 x 3-4 squares, one or two boards selected', reach=['several boards', 'one board'])])
prop('P10', 'boards.cpp', [job('h_config', bounds='1-3 cameras, 1-2 boards, every documented switch, any threshold values', reach=['configured'])])
prop('P11', 'geometry.cpp', [job('h_pose', bounds='any rigid transformation, row and column rotation vectors', reach=['row', 'column']), job('h_poseset', bounds='any two rigid transformations, matrix and vector setters', reach=['set']),
     job('h_transform', bounds='any rigid transformation, up to 3 points within 100 units', reach=['points', 'none']), job('h_project', bounds='both lens models, any pose in front of the camera, any intrinsics and small distortion, 2 points', reach=['fisheye', 'perspective'])],
     assumptions=['rigid transformations are elements of a free group: two products are equal only when they are equal for all rotations and translations', 'projection functions of OpenCV are uninterpreted'])
prop('P12', 'geometry.cpp', [job('h_quat', bounds='every unit quaternion', reach=['matrix']), job('h_quat_back', bounds='every rotation', reach=['quaternion']), job('h_median', '-DSX_N=5', bounds='up to 5 arbitrary values', reach=['empty', 'odd', 'even']), job('h_average', bounds='averages of up to 2 rotations', reach=['median', 'quaternion'])],
     [job('h_quat', bounds='every unit quaternion', reach=['matrix']), job('h_quat_back', timeout=600, bounds='every rotation', reach=['quaternion']), job('h_median', '-DSX_N=7', timeout=3000, bounds='up to 7 arbitrary values', reach=['empty', 'odd', 'even']), job('h_average', bounds='averages of up to 2 rotations', reach=['median', 'quaternion'])],
     ['exact real arithmetic'])

prop('P13', 'geometry.cpp', [job('h_ransac', '-DSX_N=5', '-DSX_IT=2', bounds='5 correspondences, 2 hypotheses, any sampling, any reprojection outcome, any threshold', reach=['all inliers', 'some inliers', 'no inliers'])],
     [job('h_ransac', '-DSX_N=6', '-DSX_IT=3', timeout=3000, bounds='6 correspondences, 3 hypotheses, any sampling, any reprojection outcome, any threshold', reach=['all inliers', 'some inliers', 'no inliers'])],
     ['random sampling is an arbitrary symbolic choice of distinct indices', 'projection functions are uninterpreted'])

RIG = ['true poses of cameras and boards are arbitrary rigid motions (free group); an average of one and the same pose is that pose']
def rig(c, f, b, extra=''): return 'every visibility pattern of %d camera(s), %d frame(s), %d board(s)%s' % (c, f, b, extra)
def CN(n, l, *st, **k): return job('h_chain', '-DSX_C=%d' % n, '-DSX_L=%d' % l, *['-DSX_ST=%d' % x for x in st], harness='groups.cpp', bounds='%s: %d nodes with arbitrary relative poses, each link absent or seen %s' % (['boards', 'cameras', 'objects', 'camera groups'][st[0]] if st else 'boards, cameras, objects and camera groups', n, ' or '.join(str(x) for x in [1, n, 2 * n + 1][:l]) + ' times'), reach=['direct', 'detour'], **k)
def D(c, f, b, p=None): return ['-DSX_C=%d' % c, '-DSX_F=%d' % f, '-DSX_B=%d' % b] + (['-DSX_P=%d' % p] if p else [])
VP = dict(reach=['too few', 'no solution', 'valid', 'rejected']); OP = dict(reach=['too few', 'no solution', 'pose', 'no inlier'])
prop('P14', 'objects.cpp', [job('h_viewpose', '-DSX_P=6', bounds='up to 6 corners in two orders, every real reprojection error, every threshold in [1/8, 16], solvable or not', **VP), job('h_objpose', bounds='object of two boards, up to 3 corners each, every real reprojection error, solvable or not', **OP)],
     assumptions=['solvePnP is a stub whose pose makes the given errors the true reprojection errors'])
prop('P16', 'optim.cpp', [job('h_lens', bounds='all five refinements, both lens models, every intrinsic and distortion value, every translation with depth 1..100, corners on and off the optical axis', reach=['perspective', 'fisheye', 'fisheye on axis'])],
     assumptions=['exact real arithmetic; sqrt and atan are functions of their argument', 'rotations are covered by P17'])
PROPS['P02']['quick'] = PROPS['P02']['quick'] + [CN(3, 3)]; PROPS['P02']['thorough'] = PROPS['P02']['thorough'] + [CN(4, 2), CN(4, 3, timeout=1500)]
RR = dict(reach=['intrinsics', 'objects', 'group', 'group and objects', 'everything', 'nothing'])
RQ = [job('h_refine', *D(2, 1, 3), bounds=rig(2, 1, 3) + ', all five refinements, mixed lens models, any image positions', **RR), job('h_refine', *D(3, 1, 2), bounds=rig(3, 1, 2) + ', all five refinements, mixed lens models', **RR)]
prop('P17', 'optim.cpp', RQ + [job('h_refine', *D(2, 2, 2), '-DSX_FIX0=5', bounds='an instant at which two cameras see one board, then every visibility pattern of two boards in a second one, all five refinements', reach=RR['reach'][:-1])],
     RQ + [job('h_refine', *D(2, 2, 2), timeout=1500, bounds=rig(2, 2, 2) + ', all five refinements', **RR), job('h_refine', *D(3, 1, 3), timeout=3000, bounds=rig(3, 1, 3) + ', all five refinements', **RR)],
     ['Ceres is a recorder: the residual blocks of the problem are evaluated at two generic assignments of the unknowns, then the unknowns are changed'])
OB = dict(reach=['several objects', 'one object', 'no board'])
prop('P18', 'objects.cpp', [job('h_objects', *D(1, 2, 4), bounds=rig(1, 2, 4, ' of two sizes, each view valid or not'), **OB), CN(4, 2, 0)],
     [job('h_objects', *D(1, 3, 3), timeout=1800, bounds=rig(1, 3, 3, ', each view valid or not'), **OB), job('h_objects', *D(1, 2, 4), timeout=1800, bounds=rig(1, 2, 4, ', each view valid or not'), **OB), job('h_objects', *D(1, 2, 5), timeout=1800, bounds=rig(1, 2, 5, ', each view valid or not'), **OB), CN(4, 3, 0, timeout=1200), CN(5, 1, 0, timeout=1200)], RIG)
OM = dict(reach=['merged', 'unchanged'])
def CH(f, b, **k): return job('h_objchain', '-DSX_F=%d' % f, '-DSX_B=%d' % b, bounds='%d boards, %d instants at which two cameras see two different boards, every choice of them' % (b, f), reach=['merged'], **k)
OF = job('h_objmerge', *D(2, 2, 3), '-DSX_FIX0=22', bounds='two cameras, three boards: an instant that links two boards and both cameras, then every visibility pattern of a second instant', reach=['merged'])
prop('P19', 'groups.cpp', [job('h_objmerge', *D(2, 1, 3), bounds=rig(2, 1, 3), **OM), job('h_objmerge', *D(2, 2, 2), bounds=rig(2, 2, 2), **OM), OF, CH(3, 4), CN(4, 2, 2)],
     [job('h_objmerge', *D(2, 2, 2), bounds=rig(2, 2, 2), **OM), job('h_objmerge', *D(3, 1, 3), timeout=2400, bounds=rig(3, 1, 3), **OM), job('h_objmerge', *D(2, 2, 3), timeout=2400, bounds=rig(2, 2, 3), **OM), CH(4, 5, timeout=2400), CN(4, 3, 2, timeout=1200), CN(5, 1, 2, timeout=1200)], RIG)
OO = dict(reach=['built', 'rebuilt'])
prop('P20', 'objects.cpp', [job('h_objobs', *D(2, 2, 2), bounds=rig(2, 2, 2, ', each view valid or not'), **OO), job('h_objobs', *D(2, 1, 3, 2), bounds=rig(2, 1, 3, ', up to 2 corners'), **OO), job('h_objobs', *D(1, 2, 3, 2), bounds=rig(1, 2, 3, ', up to 2 corners'), **OO)],
     [job('h_objobs', *D(2, 2, 2), bounds=rig(2, 2, 2), **OO), job('h_objobs', *D(2, 1, 3, 2), timeout=1800, bounds=rig(2, 1, 3, ', 2 corners'), **OO), job('h_objobs', *D(2, 2, 3), timeout=3000, bounds=rig(2, 2, 3), **OO)], RIG)
PR = dict(reach=['pairs', 'no pair'])
P21 = [job('h_boardpairs', *D(1, 2, 3), bounds=rig(1, 2, 3, ', arbitrary view poses'), **PR), job('h_boardpairs', *D(2, 2, 2), bounds=rig(2, 2, 2, ', arbitrary view poses'), **PR), job('h_campairs', *D(2, 2, 2), bounds=rig(2, 2, 2, ', arbitrary view poses'), **PR), job('h_campairs', *D(3, 1, 3), bounds=rig(3, 1, 3, ', arbitrary view poses'), **PR),
     job('h_objpairs', *D(2, 2, 2), harness='groups.cpp', bounds=rig(2, 2, 2, ', arbitrary object poses'), **PR), job('h_objpairs', *D(2, 1, 3), harness='groups.cpp', bounds=rig(2, 1, 3, ', arbitrary object poses'), reach=['no pair'])]
IW = lambda n, t: [job('h_inter', '-DSX_P=%d' % n, timeout=t, bounds='up to %d arbitrary poses per pair, both averaging methods' % n, reach=['quaternion', 'median']), job('h_weights', '-DSX_P=%d' % (n + 2), timeout=t, bounds='all four graphs, 3 nodes, up to %d poses per link' % (2 ** (n + 1)), reach=['boards', 'cameras', 'objects', 'camera groups'])]
prop('P21', 'objects.cpp', P21 + IW(2, 120), P21 + IW(3, 1500) + [job('h_campairs', *D(3, 2, 2), timeout=1500, bounds=rig(3, 2, 2), **PR), job('h_objpairs', *D(2, 2, 3), timeout=1500, harness='groups.cpp', bounds=rig(2, 2, 3), **PR)])
CG = dict(reach=['rebuilt', 'several groups', 'one group', 'no camera'])
prop('P22', 'groups.cpp', [job('h_camgroups', *D(2, 2, 2), bounds=rig(2, 2, 2), **CG), job('h_camgroups', *D(3, 1, 3), bounds=rig(3, 1, 3), **CG), job('h_camgroups', *D(3, 2, 2), bounds=rig(3, 2, 2), **CG), CN(4, 2, 1)],
     [job('h_camgroups', *D(3, 2, 2), bounds=rig(3, 2, 2), **CG), job('h_camgroups', *D(4, 1, 3), timeout=1800, bounds=rig(4, 1, 3), **CG), job('h_camgroups', *D(2, 3, 2), timeout=1800, bounds=rig(2, 3, 2), **CG), job('h_camgroups', *D(3, 2, 3), timeout=2400, bounds=rig(3, 2, 3), **CG), CN(4, 3, 1, timeout=1200), CN(5, 1, 1, timeout=1200)], RIG)
MG = dict(reach=['merged', 'merged with shared', 'not linked'])
prop('P23', 'groups.cpp', [job('h_mergegroups', '-DSX_C=4', '-DSX_L=2', bounds='up to 4 camera groups, every set of links between them, links seen once or twice, groups of one or two cameras', **MG), CN(4, 2, 3)],
     [job('h_mergegroups', '-DSX_C=5', '-DSX_L=1', timeout=2400, bounds='up to 5 camera groups, every set of links between them', **MG), job('h_mergegroups', '-DSX_C=4', '-DSX_L=2', timeout=2400, bounds='up to 4 camera groups, links seen once or twice', **MG), CN(4, 3, 3, timeout=1200), CN(5, 1, 3, timeout=1200)], RIG)
def HB(n, k, *x, **kw): return job('h_heboot', '-DSX_N=%d' % n, '-DSX_K=%d' % k, *x, **kw)
HE = [job('h_handeye', '-DSX_N=4', bounds='2 to 4 common instants, arbitrary rigid motions', reach=['calibrated']), HB(4, 3, '-DSX_R=3', bounds='4 instants, every assignment to 2-3 clusters, every selection, one hypothesis', reach=['clusters']), HB(7, 3, '-DSX_IT=1', bounds='7 instants, every assignment to 2-3 clusters', reach=['clusters']),
      HB(5, 5, '-DSX_R=1', bounds='5 instants, 2-5 clusters', reach=['clusters', 'single views']), HB(7, 7, '-DSX_KMIN=7', bounds='7 instants in single clusters, selections of 6 on a 12-level grid', reach=['single views']), job('h_hereject', '-DSX_IT=5', bounds='5 hypotheses, each right, slightly wrong or very wrong', reach=['accepted', 'fallback']), job('h_hereject', '-DSX_IT=12', '-DSX_SORT', bounds='12 hypotheses, each right, slightly wrong or very wrong, up to their order', reach=['accepted', 'fallback'])]
prop('P24', 'groups.cpp', HE, HE + [HB(4, 3, '-DSX_R=6', timeout=900, bounds='4 instants, every assignment to 2-3 clusters, six-level random draws', reach=['clusters']), HB(4, 3, '-DSX_IT=4', timeout=900, bounds='4 instants, four hypotheses', reach=['clusters']), job('h_hereject', '-DSX_IT=8', timeout=1200, bounds='8 hypotheses', reach=['accepted', 'fallback'])],
     ['calibrateHandEye returns the motion that is consistent with all the pairs it is given', 'kmeans returns an arbitrary assignment in which no cluster is empty', 'random draws range over a grid of the given number of levels'])
NO = dict(reach=['linked', 'too few views', 'one group'])
def N3(f, **k): return job('h_nonoverlap3', '-DSX_F=%d' % f, '-DSX_V=0', bounds='one camera and a group of two cameras with two objects, %d common instants, every choice of visible objects up to the order of the instants' % f, reach=['linked', 'too few views'], **k)
def NM(f, **k): return job('h_nonoverlapmax', '-DSX_F=%d' % f, bounds='a group of two cameras that may see the same object and a camera, %d common instants, every choice of visible objects up to the order of the instants' % f, reach=['linked'] + (['too few views'] if f < 7 else []), **k)
def NB(f, **k): return job('h_nonoverlap', '-DSX_F=%d' % f, '-DSX_V=1', '-DSX_HE=0', flags=['--steps', '2000000000'], bounds='bootstrapped method, two cameras without common view at fixed poses, %d frames, every choice of visible objects' % f, reach=['linked', 'too few views'], **k)
def NT(f, **k): return job('h_nonoverlapthree', '-DSX_F=%d' % f, bounds='three cameras without common view, %d instants at which two or three of them see something, up to their order' % f, reach=['linked', 'two of three', 'too few views'] if f > 7 else ['two of three', 'too few views'], **k)
prop('P25', 'groups.cpp', [NM(7), NT(6), NB(4), job('h_nonoverlap', '-DSX_F=5', '-DSX_V=1', bounds='two cameras without common view, 5 frames, every choice of the object the first sees, one frame in which the second may see nothing', **NO), N3(5)],
     [NM(9, timeout=1200), NT(8), NT(10, timeout=1800), NB(5, timeout=1200), job('h_nonoverlap', '-DSX_F=6', '-DSX_V=2', timeout=2400, bounds='two cameras without common view, 6 frames', **NO), job('h_nonoverlap', '-DSX_F=5', '-DSX_V=5', timeout=2400, bounds='two cameras, 5 frames, every visibility', **NO), N3(6, timeout=2400)], RIG)
SV = dict(reach=['several groups', 'one group', 'no camera'])
LD = job('h_loadcams', '-DSX_C=2', bounds='two cameras of any lens models, any intrinsics and distortion', reach=['loaded'])
prop('P26', 'output.cpp', [job('h_savecams', *D(2, 2, 2), bounds=rig(2, 2, 2) + ', mixed lens models, any intrinsics, distortion and image sizes', **SV), LD],
     [job('h_savecams', *D(3, 1, 2), timeout=1500, bounds=rig(3, 1, 2), **SV), job('h_savecams', *D(2, 2, 2), timeout=1500, bounds=rig(2, 2, 2), **SV), job('h_savecams', *D(3, 1, 3), timeout=1500, bounds=rig(3, 1, 3), **SV), LD],
     ['the YAML text itself is the work of cv::FileStorage, which is modelled as a tree of values'])
SO = dict(reach=['several objects', 'one object', 'no object'])
def SMG(b, **k): return job('h_savemerged', '-DSX_B=%d' % b, bounds='two objects of any of %d boards, seen at the same instant (merged) or not' % b, reach=['merged', 'separate'], **k)
prop('P27', 'output.cpp', [job('h_saveobjs', *D(1, 2, 3), bounds=rig(1, 2, 3, ', each view valid or not; equal or different board sizes'), **SO), SMG(4)],
     [job('h_saveobjs', *D(1, 2, 3), timeout=1500, bounds=rig(1, 2, 3, ', each view valid or not'), **SO), job('h_saveobjs', *D(1, 3, 3), timeout=1500, bounds=rig(1, 3, 3, ', each view valid or not'), **SO), SMG(5, timeout=1200)], ['cv::FileStorage is modelled as a tree of values'])
SP = dict(reach=['poses', 'nothing']); RE = dict(reach=['several groups', 'one group'])
prop('P28', 'output.cpp', [job('h_saveposes', *D(2, 2, 2), bounds=rig(2, 2, 2), **SP), job('h_reproj', *D(2, 2, 2, 1), bounds=rig(2, 2, 2) + ', any image positions, both lens models', **RE)],
     [job('h_saveposes', *D(3, 2, 2), timeout=1500, bounds=rig(3, 2, 2), **SP), job('h_reproj', *D(3, 1, 3, 1), timeout=1500, bounds=rig(3, 1, 3), **RE), job('h_reproj', *D(2, 1, 2, 3), timeout=1500, bounds=rig(2, 1, 2) + ', up to 3 corners', **RE)],
     ['the image of a corner is an uninterpreted function of its position in the camera frame and of the intrinsics', 'cv::FileStorage is modelled as a tree of values'])
IC = ['calibrateCamera and fisheye::calibrate are stubs that record the correspondences and return arbitrary intrinsics']
def IN(c, f, b, **k): return job('h_initcal', *D(c, f, b), bounds='every subset of the views of a rig of %d/%d/%d, every order of the views, corners anywhere, any image size, both lens models' % (c, f, b), **k)
IM = [job('h_initmany', '-DSX_M=0', '-DSX_N=52', bounds='50 to 52 views of a perspective camera', reach=['all', 'limited']), job('h_initmany', '-DSX_M=1', '-DSX_N=502', bounds='500 to 502 views of a fisheye camera', reach=['all', 'limited'])]
IR = dict(reach=['perspective', 'fisheye'])
prop('P15', 'init.cpp', [IN(2, 1, 1, **IR), IN(1, 3, 1, **IR)] + IM, [IN(1, 3, 1, **IR), IN(1, 2, 2, timeout=2400, **IR), IN(2, 2, 1, timeout=2400, **IR)] + IM, IC)
PA = ['the intrinsic calibration, the pose solver and the undistortion of OpenCV and the Ceres solver are exact oracles for noise-free views', 'poses are elements of a free group', 'corners are symbolic image positions tied to the true poses by the projection stub']
PP = 'free-group true poses, known or unknown intrinsics'
def PL(c, f, b, m, pf, reach=('one group',), **k): return job('h_pipeline', *D(c, f, b), '-DSX_M=%d' % m, '-DSX_PF=%d' % pf, bounds=rig(c, f, b, ' (each camera sees something), saved keypoints to output files, %s%s' % (PP, ', all lens model mixes' if m else '')), reach=list(reach), **k)
def PK(f, **k): return job('h_pipeline_link', '-DSX_C=2', '-DSX_F=%d' % f, '-DSX_B=2', bounds='two cameras that never see the same board, %d instants, every choice of what each instant shows' % f, reach=['linked', 'not linked'], **k)
prop('P32', 'pipeline.cpp', [PL(2, 1, 2, 2, 1), PL(2, 2, 2, 0, 0, ['one group', 'several groups', 'objects merged']), PL(3, 1, 2, 0, 0), PK(4)],
     [PL(2, 1, 3, 2, 1, timeout=1200), PL(2, 2, 2, 2, 1, ['one group', 'several groups', 'objects merged'], timeout=1800), PL(3, 1, 3, 0, 0, timeout=1800), PL(3, 2, 2, 0, 0, timeout=2400), PK(6, timeout=900)], PA)
def PI(c, f, b, **k): return job('h_images', *D(c, f, b), bounds=rig(c, f, b, ', every choice of the two image switches, one image readable or not'), reach=['both', 'detections', 'projections'], **k)
def RI(c, f, **k): return job('h_reproimages', *D(c, f, 1), bounds=rig(c, f, 1, ', calibrated camera and object poses independent of the poses of the views, 1-3 corners per view, all lens models'), reach=['one group', 'several groups'], **k)
prop('P30', 'pipeline.cpp', [PI(2, 1, 2), PI(2, 2, 1), RI(2, 2)], [PI(2, 1, 2), PI(2, 2, 2, timeout=1200), RI(3, 2, timeout=1200)], PA + ['cv::circle, imread and imwrite are recorders'])
prop('P31', 'boardapp.cpp', [job('h_generator', bounds='1-3 boards of 3-5 x 3-5 squares, every subset of the five per-board settings', reach=['per board', 'uniform', 'mixed'])], assumptions=['a drawn board is modelled as an image that tells its size, layout, marker ids and marker proportion'])
SB = 'images that are quadratic around each corner (six shapes, stationary point anywhere up to 4 px away in one iteration, up to 0.0009 px in two), nine sub-pixel positions, window %d'
RF = job('h_refined', bounds='six corners, each on a saddle, an extremum, a flat region or too far from its saddle, one of them missing or not, refinement on or off', reach=['refined', 'nothing to refine', 'not refined'])
SR = ['refined', 'off the saddle', 'no saddle']
SD = job('h_saddle', timeout=300, bounds=SB % 2 + ', alone or next to another corner of six kinds in either order', reach=SR)
prop('P29', 'corner.cpp', [SD, RF], [SD, RF, job('h_saddle', '-DSX_W=3', '-DSX_OTHER=1', timeout=900, bounds=SB % 3 + ', alone or next to a converging corner', reach=SR), job('h_saddle', '-DSX_W=5', '-DSX_OTHER=0', timeout=1200, bounds=SB % 5, reach=SR)], ['smoothing and interpolation in exact real arithmetic; the smoothing kernel and the fitted pseudo-inverse are the floating-point values the code computes'])
