#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source for both)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
G = 'McCalib/src/geometrytools.cpp'; MC = 'McCalib/src/McCalib.cpp'; CO = 'McCalib/src/utilities.cpp'
H = {'geo': 'McCalib/include/geometrytools.hpp'}
P = []
def p(i, title, statement, over, text, why, files, mech, note):
    P.append((dict(id=i, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), note))
T0 = 'The existing tests only exercise quaternion conversion on sample rotations and a few fixed graphs; '
p('P01', 'Connected groups are exactly the reachability classes', 'Grouping boards, cameras or objects by co-visibility partitions the registered vertices into exactly the classes reachable through recorded links. Every vertex is in exactly one group, also when it has no link, and no group mixes unlinked vertices.',
  'inputs histories', 'every undirected graph up to the vertex bound, every insertion order and naming of vertices', T0 + 'three hand-written graphs cannot cover all edge sets and insertion orders.',
  ['McCalib/src/Graph.cpp'], [('Graph::connectedComponents', 'McCalib/src/Graph.cpp'), ('Graph::addVertex/addEdge', 'McCalib/src/Graph.cpp')], 'all graphs up to 4 (quick) / 5 (thorough) vertices')
p('P02', 'Pose chaining follows a minimum-cost path', 'The path used to chain relative poses starts and ends at the requested vertices, uses only recorded links, and no other path has a smaller total weight. Asking for an unconnected or unknown vertex ends with a defined outcome instead of an endless loop or invalid memory access.',
  'inputs histories', 'every graph up to the vertex bound with arbitrary non-negative real weights', T0 + 'fractional weights, ties and unconnected pairs are not sampled.',
  ['McCalib/src/Graph.cpp'], [('Graph::shortestPathBetween', 'McCalib/src/Graph.cpp')], 'all graphs up to 3 (quick) / 4 (thorough) vertices, symbolic real weights')
p('P03', 'Every accepted board view is registered everywhere it belongs', 'After any sequence of accepted board views, each view is listed exactly once in its frame, its camera and its board, carries its own points, indices and image, and every frame and per-frame camera group holds exactly the views of that frame. No view is lost, duplicated or attached to another frame, camera or board, whatever the order of arrival.',
  'histories inputs', 'every sequence of board views up to the bound over two cameras and two boards with any frame indices', T0 + 'no test inserts observations at all.',
  [MC, 'McCalib/src/Frame.cpp', 'McCalib/src/Camera.cpp', 'McCalib/src/Board.cpp', 'McCalib/src/CameraObs.cpp'], [('Calibration::insertNewBoard', MC), ('Frame::insertNewBoard, Camera::insertNewBoard, Board::insertNewBoard', 'McCalib/src')], 'histories of up to 3 (quick) / 4 (thorough) views')
p('P04', 'A detected board is kept iff enough corners and not collinear', 'A board detected in an image is recorded exactly when the fraction of its corners found reaches the configured minimum and the detected corners do not lie on one row or one column; what is recorded are the detected corners with their identifiers. Boards that do not qualify leave no trace.',
  'inputs configurations', 'every subset of visible corners, every threshold, one or two boards', T0 + 'no test runs detection.',
  [MC, 'McCalib/src/utilities.cpp'], [('Calibration::detectBoardsInImageWithCamera', MC), ('collinearity filter', MC)], 'boards of 4x2 (quick) / 5x2 (thorough) corners, every subset')
p('P05', 'Saved detections reload to the same observations', 'Keypoints saved from a detection run and loaded in a new run give the same board views: same camera, frame, board, corner identifiers and pixel positions, and the same image size per camera. Nothing is dropped, added or swapped between cameras or boards.',
  'inputs histories', 'any set of recorded views up to the bound with arbitrary positions and identifiers', T0 + 'no test saves or loads keypoints.',
  [MC], [('Calibration::saveDetectedKeypoints', MC), ('Calibration::loadDetectedKeypoints', MC)], '2 (quick) / 3 (thorough) views of 2 corners')
p('P06', 'Parallel detection equals sequential detection', 'Processing the images of a camera in parallel records the same observations as processing them one after another, whatever the interleaving. No two detection tasks touch the same data without synchronisation.',
  'schedules inputs', 'every interleaving at lock operations of the per-image tasks, every visibility pattern', T0 + 'tests never run the detection threads, and a race shows only under particular schedules.',
  [MC], [('Calibration::detectBoards thread pool and insertNewBoard lock', MC)], '2 (quick) / 3 (thorough) images, 2 boards; lockset race detection')
p('P07', 'The image list of a camera is exactly the image files of its folder', 'For each camera the frames processed are exactly the files of its folder with an image extension, in sorted order, and the frame index of a file is its rank. Other files are ignored and folders of different cameras do not mix.',
  'inputs', 'every mix of image and other files up to the bound', T0 + 'no test reads an image folder.',
  [MC, 'McCalib/src/utilities.cpp'], [('Calibration::detectBoards file listing', MC)], 'up to 3 files per folder')
p('P08', 'Board geometry follows the configuration', 'Every board has the grid of corners described by its configured counts and square size: corner k lies at its column and row times the square size on the plane z = 0. Per-board settings apply to the board they are listed for, uniform settings to all, and the pattern images match.',
  'configurations inputs', 'every combination of uniform and per-board settings and board subsets up to the bound', T0 + 'no test builds boards from a configuration.',
  [MC, 'McCalib/src/Board.cpp', 'McCalib/src/utilities.cpp'], [('Calibration::initialization', MC), ('Board::Board', 'McCalib/src/Board.cpp')], 'up to 3 printed boards, any real square size')
p('P09', 'Marker identifiers never repeat across boards', 'The markers of the configured boards are pairwise distinct and board b starts right after the markers of the boards printed before it, also when only some of the printed boards are used. A marker seen in an image therefore identifies one board.',
  'configurations', 'every combination of board sizes and selected boards up to the bound', T0 + 'no test creates boards.',
  ['McCalib/src/utilities.cpp', MC], [('createCharucoBoards / marker offsets', 'McCalib/src/utilities.cpp')], 'up to 4 printed boards')
p('P10', 'Every documented setting reaches the calibration', 'Each setting of the configuration file takes effect with the documented meaning and default: number of cameras and boards, lens model per camera, thresholds, iteration count, switches and paths. Settings for one camera or board do not leak to another.',
  'configurations', 'all documented switches and arbitrary threshold values', T0 + 'no test parses a configuration.',
  [MC], [('Calibration::Calibration(config path)', MC)], '1-3 cameras, 1-2 boards')
p('P11', 'Rigid transformations are represented consistently', 'Converting a rigid transformation between matrix, rotation vector and translation, inverting it, and storing it in any camera, board, object or observation gives back the same transformation. Points are moved by exactly that transformation, and projection uses the lens model of the camera.',
  'inputs', 'every rigid transformation, every point in range, both lens models', T0 + 'only the all-zero projection is tested.',
  [G, 'McCalib/src/BoardObs.cpp', 'McCalib/src/Object3DObs.cpp', 'McCalib/src/Object3D.cpp', 'McCalib/src/CameraGroup.cpp', 'McCalib/src/CameraGroupObs.cpp'], [('RVecT2Proj, RT2Proj, Proj2RT, invertRvecT, ProjToVec, transform3DPts, projectPointsWithDistortion', G), ('pose getters and setters', 'McCalib/src')], 'poses as free-group elements, all values')
p('P12', 'Quaternion, median and averaging helpers are exact', 'A unit quaternion and the rotation it denotes convert into each other for every rotation, including half turns. The median is the middle order statistic, and averages of rotations are formed from the right components.',
  'inputs', 'every rotation and every list of values up to the bound', T0 + 'samples avoid the branches taken near half turns.',
  [G], [('convertRotationMatrixToQuaternion, convertQuaternionToRotationMatrix, median, getAverageRotation', G)], 'all rotations; lists of up to 5 (quick) / 7 (thorough) values')
exec(open(V + '/meta_more.py').read()) if os.path.exists(V + '/meta_more.py') else None
NA = []
def main():
    import sys; sys.path.insert(0, V)
    from props import PROPS
    with open(V + '/properties.jsonl', 'w') as f:
        for d, n in P: f.write(json.dumps(d) + '\n')
    checks = [dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'], level='model_checking', level_note='bounded: ' + n,
                   technique='symbolic execution of the LLVM IR of the current sources with SMT (Z3) queries per branch and obligation; counterexamples replayed on the natively compiled code') for d, n in P if d['id'] in PROPS]
    na = NA + [dict(property=d['id'], reason='check under construction') for d, n in P if d['id'] not in PROPS and d['id'] not in [x['property'] for x in NA]]
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
