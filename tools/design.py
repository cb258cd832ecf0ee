#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the approach, then one section per property with the bounds of its jobs taken from props.py."""
import json, sys, os
sys.path.insert(0, '/verif'); import props
P = {}
for l in open('/verif/properties.jsonl'): d = json.loads(l); P[d['id']] = d
ORACLE = {
'P01': ('`Graph::addVertex/addEdge/connectedComponents` run on every edge set; oracle: union-find written in the harness; every vertex in exactly one group.', 'graphs with more vertices; vertex names that are not integers (never produced)'),
'P02': ('`Graph::shortestPathBetween` with every weight symbolic; oracle: no simple path (enumerated by the harness) is shorter, for all weights at once. `h_chain` runs the four users of the graph (boards, cameras, objects, camera groups) with independent relative poses per link, and the resulting pose must be the product along a minimum-cost path.', 'rounding of weight sums'),
'P03': ('a history of `insertNewBoard` calls with symbolic camera, frame, board, points, ids; oracle: a plain list of what was inserted, compared with every index table of Calibration/Frame/CameraObs/Camera/Board.', 'longer histories'),
'P04': ('`detectBoardsInImageWithCamera` with a detector stub that returns an arbitrary subset of corners; oracle: the exact documented rule (fraction, not on one row/column; the undecided band of the residual between is excluded).', 'the ArUco detector itself; larger boards'),
'P05': ('`saveDetectedKeypoints` then `loadDetectedKeypoints` in a second Calibration through the model of FileStorage; oracle: equality of all views.', 'the text format of YAML (OpenCV)'),
'P06': ('the tasks of `detectBoardsWithCamera` are run by a symbolic scheduler in every interleaving at lock operations; oracle: same observations as sequentially, plus a lockset/happens-before race check on every access.', 'weak memory orders, more images'),
'P07': ('`detectBoards` with an arbitrary directory listing; oracle: filter + sort in the harness; the glob stub returns names in sorted order as cv::glob documents.', 'names beyond the given alphabet'),
'P08': ('`Calibration(config)`, `Board` and the drawn images, counts/sizes symbolic; oracle: column/row times the square size.', 'rendering of the pattern (OpenCV)'),
'P09': ('`createCharucoBoards` on all configurations in the bound; oracle: prefix sums of marker counts.', ''),
'P10': ('`Calibration(config)` on symbolic configurations, per-camera lens models independent; oracle: each member equals its key.', 'mistyped configuration values'),
'P11': ('conversions, setters, inversion and point transformation on free-group poses; projection is checked to call the right OpenCV function with the right arguments.', 'rounding'),
'P12': ('quaternion formulas over all unit quaternions / rotations (Z3 non-linear real arithmetic), median over all orders.', 'rounding, more rotations in an average'),
'P13': ('`ransacP3P` with symbolic samples and reprojections, including solver failure; oracle: recomputed inlier sets of all sampled hypotheses.', 'the numerical P3P and refinement (OpenCV)'),
'P14': ('`BoardObs/Object3DObs::estimatePose` with a PnP stub under which the reprojection error of every corner is a free real; oracle: kept iff below the threshold.', ''),
'P15': ('`Camera::initializeCalibration` with recorder stubs for calibrateCamera/fisheye::calibrate and symbolic shuffles.', 'the calibration numerics (OpenCV)'),
'P16': ('the cost functors of `OptimizationCeres.h` evaluated symbolically for all parameters against the documented formulas.', 'rotations (P17), derivatives (Ceres autodiff)'),
'P17': ('Ceres is replaced by a recorder; the residual blocks of each refinement are evaluated at two generic assignments of all unknowns and matched one-to-one with the expected corners; then all unknowns are changed and the derived values checked.', 'convergence of the solver, constant-block flags are seen through the residuals'),
'P18': ('board views with free-group poses -> `computeBoardsPairPose … init3DObjects`; oracle: union-find over images and word equality of every board pose and corner.', 'noisy poses: the average of different poses is P21'),
'P19': ('as P18, over camera groups: `computeObjectsPairPose … mergeObjects, mergeAllObjectObs`.', ''),
'P20': ('`init3DObjectObs` and its registration in camera, image, frame, object and group, also when rebuilt.', ''),
'P21': ('pose pairs of boards, cameras, objects with independent view poses (nothing is assumed consistent), averages by component medians, graph weights.', ''),
'P22': ('`initCameraGroup … computeObjectsPose`; oracle: union-find over instants and free-group rig poses.', ''),
'P23': ('`initInterCamGroupGraph, mergeCameraGroup, mergeAllCameraGroupObs` on every link set.', ''),
'P24': ('`handeyeCalibration`, cluster selection, consistency check and bootstrap with stub solvers which are exact on consistent input.', 'the AX=XB solvers and k-means (OpenCV)'),
'P25': ('`findPairObjectForNonOverlap, initNonOverlapPair, findPoseNoOverlapAllCamGroup` on two and three groups.', 'other numbers of instants'),
'P26': ('`saveCamerasParams` and `initializeCalibrationAllCam` through the FileStorage model.', 'YAML text'),
'P27': ('`save3DObj` before and after merging; oracle: corner positions of the true rig.', 'YAML text'),
'P28': ('`save3DObjPose`, `saveReprojectionErrorToFile`, `computeAvgReprojectionError`; oracle: recomputed from the rig.', 'YAML text, projection numerics'),
'P29': ('`saddleSubpixelRefinement` on symbolic image patches (quadratic saddle with free position, flat, ramp, borders) and its use in the detection.', 'arbitrary textures: only that the corner stays or moves onto a saddle'),
'P30': ('`saveDetectionImages(AllCam)`, `saveReprojectionImages(AllCam)` with imread/circle/imwrite recorders.', 'JPEG encoding'),
'P31': ('`apps/create_charuco_boards` and `Calibration` on one configuration file.', 'rendering (OpenCV)'),
'P32': ('`apps/calibrate` sequence from the keypoint file to the output files, OpenCV/Ceres numerics being exact oracles.', 'noise'),
}
def jobs(js):
    out = []
    for j in js:
        b = '%s: %s' % (j['entry'], j['bounds'])
        if b not in out: out.append(b)
    return out
o = [open('/verif/tools/design_head.md').read().rstrip(), '', '## Properties', '',
     'Per property: what is executed and against what oracle, the bounds of the quick and (additional) thorough jobs, and what lies outside.', '']
for i in sorted(P):
    orc, out = ORACLE[i]; q = jobs(props.PROPS[i]['quick']); t = [x for x in jobs(props.PROPS[i]['thorough']) if x not in q]
    o += ['### %s %s' % (i, P[i]['title']), '', orc[0].upper() + orc[1:] if orc[0] != '`' else orc, '', 'Quick: ' + '; '.join(q) + '.', '']
    if t: o += ['Thorough adds: ' + '; '.join(t) + '.', '']
    if out: o += ['Outside: ' + out + '.', '']
o += [open('/verif/tools/design_tail.md').read().rstrip(), '']
open('/verif/DESIGN.md', 'w').write('\n'.join(o))
import glob
o = open('/verif/DESIGN.md').read(); rows = []
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append('| %s | %s | %s |' % (m.split('/')[-2], d['property'], ' '.join(d['what_it_breaks'].split())[:160].replace('|', '/')))
o += '\n## Planted bugs (`seeded/`)\nEach is caught by the quick check of its property (tools/seedcheck.sh).\n\n| bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n\n' + open('/verif/tools/design_mutants.md').read()
open('/verif/DESIGN.md', 'w').write(o)
