"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=['defdap/' + f for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))


H, I, C = 'histories', 'inputs', 'configurations'

p('P01', 'Lazy map data behaves as a map of items with on-demand generation',
  'For every history of adding items, adding generators (with one or several outputs), reading, overwriting, calling update and setting metadata, reading an item gives the last stored or generated value (cropped and masked when it is map data), and reading runs a generator at most once, only when one of its outputs is first needed, unless its result is marked as not to be kept. '
  'Membership and iteration cover exactly the stored and the generatable items, an unknown item raises a KeyError, and a failing generator raises an error and leaves the store as it was. '
  'Updating one store from another respects the stated priority and does not change the other store.',
  [H], 'all sequences of store operations up to a depth, over a small set of items and generators',
  'The unit tests call each operation once on one small store; they never interleave generators with overwrites, updates and failed generation.',
  ['utils.py'], [('Datastore', 'utils.py'), ('generate/add_generator', 'utils.py'), ('update', 'utils.py')],
  [('stored items', 'values and metadata by key', 'Datastore')], ['item values', 'metadata', 'keys', 'generator call counts'])

p('P02', 'Derived data is the transform of the source, in every map and grain',
  'Data that one map or grain derives from another, directly or through a linked map, is found whenever any linked source has (or can generate) it, equals the declared transform of the source value, and carries the source metadata with the declared changes. '
  'A lookup that no source can answer raises a KeyError also when sources are linked in a cycle, and a lookup that failed or raised leaves later lookups unaffected. '
  'Map data read from a grain equals the map values at the points of the grain in order, also for data generated later than the grains.',
  [H, C], 'all small graphs of linked stores and all sequences of reads, failures and retries on them',
  'The tests link one pair of maps and read one item; chains, several sources, cycles and errors during a lookup are not reached.',
  ['utils.py', 'base.py', 'hrdic.py', 'ebsd.py', 'experiment.py'],
  [('derivative lookup', 'utils.py Datastore.lookup_derivative_keys/_get_derived_item'), ('link_ebsd_map', 'hrdic.py'), ('grain data from map', 'base.py Grain')],
  [('visited set', 'guards a lookup against cycles', 'Datastore')], ['item values through maps and grains'])

p('P03', 'An EBSD boundary lies exactly where phase or orientation changes',
  'There is a boundary between two adjacent pixels of an EBSD map exactly when they belong to different phases or, for the same phase, when their smallest misorientation over the crystal symmetry (of the primary phase) exceeds the boundary tolerance; phase boundaries are exactly those between different phases. '
  'The last column (row) never carries a boundary towards the right (bottom), and the boundary image and boundary points hold exactly these pixel edges.',
  [I], 'all phase and orientation assignments from small alphabets on maps up to a few pixels, over tolerances on both sides of each misorientation',
  'The tests compare one example map with stored values; they cannot cover every arrangement of phases, orientations and tolerances.',
  ['ebsd.py'], [('find_boundaries', 'ebsd.py'), ('BoundarySet', 'ebsd.py')], (), ['boundary image and points'])

p('P04', 'EBSD grains partition the map into boundary-connected regions',
  'For every map and boundary, the grains found are exactly the sets of indexed pixels that are connected through shared pixel edges without a boundary and are at least the minimum size, numbered in order of their first pixel; smaller regions are marked as too small and unindexed pixels belong to no grain. '
  'The grain map, the list of grains, the points of each grain and the phase of each grain agree with each other, for maps of any shape including one pixel wide and maps without any grain.',
  [I], 'all boundary patterns (phase labels and orientations) on small maps and all minimum grain sizes',
  'The tests flood fill one example; wrap-around, maps one pixel wide, empty maps and size limits are not reached for every pattern.',
  ['ebsd.py', '_accelerated.py', 'base.py'], [('find_grains', 'ebsd.py'), ('flood_fill', '_accelerated.py')],
  [('grain map', 'grain id per pixel, -2 too small', 'Map.data.grains')], ['grain map', 'grain points', 'grain phase'])

p('P05', 'The neighbour network holds exactly the grains that touch',
  'Two grains are neighbours exactly when a pixel edge between them is a boundary, where edges whose left (or upper) pixel lies in the outermost rows or columns of the map are not counted, and neighbour relations are symmetric. '
  'Each shared boundary segment lists exactly the boundary pixel edges between its two grains, is the same for either order of the grains, and gives their misorientation.',
  [I], 'all partitions of small maps into grains',
  'The tests build one network of one example map.',
  ['ebsd.py', 'base.py'], [('build_neighbour_network', 'ebsd.py'), ('BoundarySegment', 'ebsd.py')], (), ['network edges', 'segment points, lines and misorientation'])

p('P06', 'Boundary points, images, lines and distances describe the same boundary',
  'A set of boundary points built from images or from segments returns images that are true at exactly these points and lines at exactly the matching pixel edges, also when it is empty. '
  'The distance map gives for every pixel the distance to the nearest boundary, taken as the bottom right corner of that boundary pixel, whichever number of trial distances is used, and 1000 without a boundary.',
  [I], 'all boundary point sets on small maps and all trial-count settings in a range',
  'The tests do not check distances at all and convert one set of points.',
  ['ebsd.py', 'base.py', 'hrdic.py'], [('BoundarySet', 'ebsd.py, hrdic.py'), ('calc_proxigram', 'base.py')], (), ['images', 'lines', 'proxigram'])

p('P07', 'HRDIC grains follow the linked EBSD grains',
  'With the warped-grain method HRDIC grains are the warped EBSD labels; with the flood-fill method they are the regions of connected non-boundary pixels, each joined by the boundary pixels directly right of or below it that no earlier region took, and regions below the minimum size are marked as too small. '
  'Every HRDIC grain is linked to the EBSD grain it was warped from or that covers most of its pixels, and the grain map, list and point lists agree.',
  [I], 'all boundary images and label maps on small maps and all minimum grain sizes',
  'The tests run both methods on one example and compare stored counts.',
  ['hrdic.py', '_accelerated.py'], [('find_grains', 'hrdic.py'), ('flood_fill_dic', '_accelerated.py')], (), ['grain map', 'grain points', 'linked EBSD grain'])

p('P09', 'Crop, mask and homologous points give the same data in any order',
  'For every history of setting crop, mask and homologous points, the data of an HRDIC map equals the loaded data cropped by the last crop (from each edge) and masked by the last mask, whatever was set or read before, and the dimensions agree with it. '
  'Nothing made from masked data - plotted components and norms, grain averages, tables of statistics, histograms, line profiles - includes a masked point, and the points that are not masked are what they are without a mask. '
  'Homologous points are stored per map in order, updates move only the chosen point (or all of them for the wildcard), and no later change of a list that was passed in changes them.',
  [H], 'all sequences of crop, mask, read and point operations up to a depth on small maps',
  'The tests apply one crop to one map and never change it after reading data.',
  ['hrdic.py', 'experiment.py'], [('set_crop/crop', 'hrdic.py'), ('calc_mask/mask', 'hrdic.py'), ('set_homog_point(s)', 'experiment.py')],
  [('crop distances', 'pixels cut from each edge', 'hrdic.Map'), ('homog points', 'point list per frame', 'experiment.Frame')], ['map data', 'shape', 'homologous points'])

p('P10', 'Transforms between frames map homologous points and invert each other',
  'The transform estimated between two frames maps the homologous points of one onto those of the other (exactly when they are related by the chosen transform type), and for affine and projective transforms the transform in the opposite direction undoes it. '
  'Images, lines and points warped from one map to the other land where the transform puts them, for maps that are not square, scaled, shifted or reach outside each other, cropped or not.',
  [C, I], 'all combinations of transform type, scale, shift, map shape and crop from small sets',
  'The tests use one pair of maps with one set of points.',
  ['experiment.py', 'hrdic.py'], [('get_frame_transform', 'experiment.py'), ('warp_image/warp_lines/warp_points', 'experiment.py'), ('warp_to_dic_frame', 'hrdic.py')], (), ['warped images, lines, points'])

p('P11', 'Quaternions form a consistent rotation algebra',
  'Euler angles, axis-angle, rotation matrix and coefficients describe the same rotation and convert into each other, with unit norm in the upper half; multiplication is associative, matches the product of rotation matrices, and the conjugate is the inverse. '
  'Rotating a vector equals applying the rotation matrix, operations on many quaternions equal the same operation on each, and angles at the ends of their ranges are no exception.',
  [I], 'all orientations from a grid of Euler angles or axes and angles including every degenerate value, and all pairs of them',
  'The tests use a few hand-picked orientations; degenerate angles and sign conventions are covered only by examples.',
  ['quat.py'], [('Quat', 'quat.py')], (), ['coefficients', 'Euler angles', 'matrices', 'vectors'])

p('P12', 'Misorientation does not depend on the choice of symmetric equivalent',
  'The symmetry operations of each crystal structure form a group of proper rotations of the right order that leaves the lattice unchanged. '
  'Replacing either orientation by a symmetric equivalent, or swapping them, leaves the misorientation angle unchanged; it is the smallest rotation over all equivalents, and the misorientation axis belongs to such a rotation. The misorientation of the boundary between two grains of the same structure is that of their reference orientations under this structure.',
  [I], 'all pairs of symmetry operations of each structure and all pairs of orientations from a grid with all equivalents',
  'The tests check a few angles; the group property and invariance are universally quantified.',
  ['quat.py', 'crystal.py'], [('sym_eqv', 'quat.py'), ('mis_ori/mis_ori_axis', 'quat.py'), ('calcMisOri', 'quat.py'), ('CrystalStructure', 'crystal.py')], (), ['misorientation angle, axis, equivalents'])

p('P13', 'IPF direction and colour are the same for symmetric equivalents',
  'For every orientation and sample direction, the direction reduced to the unit triangle lies in the fundamental sector of its crystal symmetry and is a symmetric equivalent of the crystal direction. '
  'The IPF colour is a valid RGB value, is the same for symmetric equivalents and for opposite sample directions, and is pure at the corners of the triangle.',
  [I], 'all orientations from a grid, all sample directions from a set, and all symmetric equivalents, for cubic and hexagonal structures',
  'The tests compare a few stored colours.',
  ['quat.py', 'ebsd.py'], [('calc_fund_dirs', 'quat.py'), ('calc_ipf_colours', 'quat.py')], (), ['fundamental directions', 'colours'])

p('P14', 'Crystal index conversions are exact and reversible',
  'Converting plane or direction indices between three- and four-index notation and back gives the same plane or direction, the four-index form sums to zero in its basal part, and both forms describe the same Cartesian normal or direction. '
  'Reducing indices divides by their greatest common divisor and keeps direction, sign and type; casting to integers accepts exactly integral values; formatted indices show every index and its sign unambiguously; symmetric equivalents of indices are closed and complete.',
  [I], 'all index triples and quadruples within a range, including zero, negative and large values',
  'The tests convert a handful of indices.',
  ['crystal_utils.py'], [('convert_idc', 'crystal_utils.py'), ('reduce_idc/safe_int_cast', 'crystal_utils.py'), ('idc_to_string/str_to_idx', 'crystal_utils.py'), ('equavlent_indicies', 'crystal_utils.py'), ('create_l_matrix/create_q_matrix', 'crystal_utils.py')], (), ['indices', 'Cartesian vectors'])

p('P15', 'Slip systems are orthogonal, complete families of their definition',
  'Every loaded or generated slip system has its direction in its plane, unit vectors, and agrees with its indices; loading a file gives the systems in it in order, grouped by shared plane without loss or duplication. '
  'The family generated from one slip system is exactly its orbit under the crystal symmetry, with opposite directions or normals counted once.',
  [I, C], 'all slip system files, all structures and axial ratios from a set, and all generating systems within an index range',
  'The tests load one file per structure and compare counts.',
  ['crystal.py', 'crystal_utils.py'], [('SlipSystem.load/group/generate_family', 'crystal.py'), ('Phase', 'crystal.py')], (), ['slip plane, direction, family'])

p('P16', 'Schmid factors, slip traces and displacement ratios follow the geometry',
  'For every orientation and load direction the Schmid factor is the product of the cosines to plane normal and slip direction, never exceeds one half, and the set of values does not depend on which symmetric equivalent is used; the average Schmid factor of a grain is the factor of its reference orientation. '
  'Slip trace directions lie in both the slip plane and the surface, and theoretical displacement ratios are those of the rotated slip directions.',
  [I], 'all orientations from a grid, all load directions from a set and all slip systems of each structure',
  'The tests compare one value.',
  ['quat.py', 'ebsd.py', 'hrdic.py'], [('calc_average_schmid_factors', 'ebsd.py'), ('calc_slip_traces/calc_rdr', 'ebsd.py')], (), ['Schmid factors', 'trace angles', 'RDR'])

p('P17', 'The average orientation of a grain lies amid its pixels, in any representation',
  'The reference orientation of a grain is the mean of its pixels and does not depend (up to symmetry) on which symmetric equivalent or sign each pixel is stored in, nor on the order of the pixels. '
  'The misorientation of every pixel to it is the smallest symmetric rotation between them, the map of misorientations agrees with the per-grain lists, and grain averages are the means of these.',
  [I], 'all assignments of symmetric equivalents and signs to the pixels of small grains, about orientations from a grid including half turns',
  'The tests use one stored average.',
  ['quat.py', 'ebsd.py'], [('calc_average_ori/calc_sym_eqvs', 'quat.py'), ('build_mis_ori_list/calc_grod', 'ebsd.py')], (), ['reference orientation', 'GROD', 'misorientation lists'])

p('P18', 'KAM, Nye tensor and filtering use the neighbours and the symmetry correctly',
  'The kernel average misorientation of a pixel is that of the mean misorientation cosine to its direct neighbours (without symmetry, as documented), unaffected by quaternion signs; the dislocation density is zero for a uniform map and matches the curvature of a uniformly bent one. '
  'Filtering a map leaves uniform regions unchanged, gives valid orientations close to the input, and does not depend on quaternion signs.',
  [I], 'all small maps of orientations from an alphabet of rotations and equivalents, and all bending axes and directions',
  'The tests compare stored means of one map.',
  ['ebsd.py'], [('calc_kam', 'ebsd.py'), ('calc_nye', 'ebsd.py'), ('filter_data', 'ebsd.py')], (), ['KAM', 'Nye tensor', 'GND', 'filtered orientations'])

p('P19', 'A saved EBSD map loads as the same map and nothing is overwritten',
  'Saving any EBSD map and loading the file gives the same shape, step size, phases (name, Laue group, lattice, space group), phase of each pixel, orientation and band contrast to the precision of the format. '
  'Saving to an existing file is refused and leaves that file untouched.',
  [I, H], 'all small maps over alphabets of shapes, step sizes, phases and values including unindexed pixels, and all save/load histories of two files',
  'The tests save one map.',
  ['file_writers.py', 'file_readers.py', 'ebsd.py'], [('OxfordTextWriter', 'file_writers.py'), ('OxfordTextLoader', 'file_readers.py'), ('Map.save', 'ebsd.py')], (), ['loaded map', 'file bytes'])

p('P20', 'EBSD files load every pixel into its place whatever the column layout',
  'For each supported EBSD format (text and binary Oxford, EDAX text, Python dictionary), the loaded map has the phase, angles in radians and band data of each pixel at its position, and the phases, step size and rotation of the header, for any order of columns or fields, known or unknown, and any map shape. '
  'Files with inconsistent sizes or missing parts are refused.',
  [I, C], 'all permutations of columns and fields and all small shapes, phase counts and unit spellings',
  'The tests read one file of each kind.',
  ['file_readers.py', 'ebsd.py'], [('OxfordTextLoader', 'file_readers.py'), ('EdaxAngLoader', 'file_readers.py'), ('OxfordBinaryLoader', 'file_readers.py'), ('PythonDictLoader', 'file_readers.py')], (), ['loaded data and metadata'])

p('P21', 'DIC files load every displacement into its place whatever the row order',
  'For each supported DIC format (Davis text, OpenPIV text and binary, PyVale text and binary), the loaded map has the displacement of each measured point at its position and the dimensions, sub-window and version of the header, for any map shape of at least two by two and any order of points the format allows. '
  'Data whose number of points, extent or point spacing contradicts the header is refused.',
  [I, C], 'all small shapes, point orders and binning sizes, all sets of missing points, and all contradictions of header and data of a list',
  'The tests read one file of each kind.',
  ['file_readers.py', 'hrdic.py'], [('DavisLoader', 'file_readers.py'), ('OpenPivTextLoader/OpenPivBinaryLoader', 'file_readers.py'), ('PyValeLoader', 'file_readers.py')], (), ['loaded data and metadata'])

p('P22', 'Strain of a deformed map is the gradient of its displacements',
  'For every displacement field the deformation gradient is the identity plus the spatial derivatives of the displacements with x and y components in their documented places, the strain is the Green strain of it, and the effective shear strain follows from the in-plane strain. '
  'Rigid translations give no strain, uniform gradients are reproduced exactly, and the values do not depend on the order in which they are asked for.',
  [I, H], 'all polynomial displacement fields with small coefficients, all binnings and shapes from a set, and all request orders',
  'The tests compare one stored field.',
  ['hrdic.py'], [('deformation gradient, strain and shear generation', 'hrdic.py Map.__init__')], (), ['f, e, max_shear'])

p('P23', 'Grain-wise data and map-wise data agree',
  'Data collected per grain, spread back to a map, or averaged per grain agrees with the map at the points of each grain for any component, any subset of grains and any grain shape, with pixels outside the chosen grains filled with the fill value. '
  'Grain shape data (extent, centre, outline, map of a grain, coarse map) is consistent with the points of the grain.',
  [I], 'all partitions of small maps, all subsets of grains and all components of the data',
  'The tests check one grain of one map.',
  ['base.py'], [('grain_data_to_map/grain_data_to_map_data/calc_grain_average', 'base.py'), ('Grain methods', 'base.py')], (), ['arrays'])

p('P24', 'Interactive picking selects what was clicked and nothing else',
  'For every history of clicks, keys and saves, the point picked is the one under the cursor, arrow keys move it by the documented number of pixels, saving updates exactly the chosen homologous point, and events that are not meant for the tool change nothing. '
  'Clicking a grain selects and highlights that grain (or its neighbours), and links between maps record exactly the pairs that were made.',
  [H], 'all sequences of mouse, key and save events up to a depth',
  'The tests never send an event.',
  ['experiment.py', 'base.py', 'ebsd.py'], [('homog_click/homog_key/homog_click_save', 'experiment.py'), ('click_grain_id/click_grain_neighbours', 'base.py'), ('Linker', 'ebsd.py')],
  [('selected point and grain', 'what the user picked', 'Frame, Map')], ['homologous points', 'current grain', 'links', 'markers'])

p('P25', 'Slip lines drawn in the grain inspector are kept, edited and reloaded exactly',
  'For every history of drawing, removing, clearing and grouping lines and moving between grains, each grain holds exactly the lines drawn on it and not removed, with their angles, and a line joins the group whose average angle is closest to it (within 10 degrees on the scale from 0 to 180) or starts a new one. '
  'A number typed in a text box acts once, on the grain or line of that number. '
  'Saving the lines and loading the file into a fresh map restores lines, angles and groups of every grain.',
  [H], 'all sequences of inspector operations up to a depth on two or three grains',
  'The tests never run the inspector.',
  ['inspector.py'], [('save_line/remove_line/clear_all_lines/group_lines', 'inspector.py'), ('save_file/load_file', 'inspector.py')],
  [('points_list, groups_list', 'lines and groups per grain', 'hrdic.Grain')], ['line and group lists', 'saved file'])

p('P26', 'Map plots show the chosen data, boundaries and grains where they are',
  'For every component, selection of grains, colours and boundaries, the plotted layers hold the map values, each highlighted grain in its own colour and no other pixel highlighted, boundaries at exactly the boundary pixels or edges, and numbers and arrows at the grain positions. '
  'Adding layers in any order does not change the data, the arguments or the other layers.',
  [I, H], 'all subsets and orders of grains and layers on small maps',
  'The tests do not look at what is drawn.',
  ['plotting.py', 'base.py'], [('MapPlot', 'plotting.py'), ('plot_map', 'base.py')], (), ['image layers', 'line collections', 'texts'])

p('P27', 'An experiment keeps its increments, maps, frames and links apart',
  'Every map belongs to exactly one increment of one experiment (the given ones, or a new increment), and iterating over the maps of a name gives exactly the maps last added under that name with the number of their increment, in order. '
  'Maps share homologous points and links only when they were given the same frame, and frames have a transform, in both directions, exactly when they were linked. Working on one map leaves the data, links and grains of the maps of other increments and frames unchanged.',
  [I, H], 'all sequences of adding increments and maps, sharing frames, linking, cropping and finding grains up to a depth',
  'The tests use one map of each kind at a time.',
  ['experiment.py', 'base.py', 'hrdic.py'], [('Experiment', 'experiment.py'), ('Frame', 'experiment.py'), ('link_ebsd_map', 'hrdic.py')], (), ['increments, maps, frames and transforms', 'data and grains of every map'])

p('P28', 'Rotating an EBSD map by 180 degrees is consistent and undone by repeating it',
  'Rotating the data of an EBSD map by 180 degrees moves the Euler angles, phases, band contrast and band slope of every pixel to the opposite position and turns each orientation by the same half turn, and doing it twice restores the orientations and pixel values. '
  'Results calculated for the first time after rotating (boundaries, grains, averages) are those of the unrotated map, in turned positions.',
  [H], 'all sequences of reads and rotations up to a depth on small maps',
  'The tests rotate one map once.',
  ['ebsd.py'], [('rotate_data', 'ebsd.py')], (), ['Euler angles', 'orientations', 'phase', 'band data'])

p('P29', 'Pole projections place every direction correctly',
  'Stereographic and equal-area projection of any direction have the documented radius for its polar angle and keep its azimuth, give the same point for a direction and its symmetric opposite where documented, and stay within the unit triangle for reduced directions. '
  'Points added to a pole plot are drawn at the projection of their direction, on the axes, in the colour and with the size asked for, and the legend of sizes gives the size of the points.',
  [I], 'all directions from a grid including the poles and the equator, for each projection and crystal structure',
  'The tests do not cover projections.',
  ['plotting.py', 'quat.py'], [('PolePlot projections', 'plotting.py'), ('plot_ipf', 'quat.py')], (), ['projected coordinates', 'scatter offsets'])

p('P30', 'Components and line profiles read the map values that were asked for',
  'For every data item and component specification (index, name, norm, all), the extracted map is that component of the data, and a specification the data does not have is refused. '
  'A line profile between two points samples the map along that line in the given direction, also for horizontal, vertical and reversed lines.',
  [I], 'all component specifications on data of every rank and all pairs of end points on small maps',
  'The tests cover a few valid specifications and no profile.',
  ['base.py', 'plotting.py'], [('_extract_component', 'base.py'), ('calc_line_profile', 'base.py')], (), ['plotted component', 'line profile'])

p('P31', 'Reporting progress does not change a result',
  'Every calculation that reports progress gives the same results and raises the same errors as it does without reporting, for any number of reported steps including zero. '
  'Reported progress never decreases within a calculation and a completed calculation is reported as finished, unless it ends with a status message of its own.',
  [I, H], 'all sequences of progress values up to a length with every kind of end (return, value, error)',
  'The tests run decorated functions once and ignore what is printed.',
  ['utils.py'], [('report_progress', 'utils.py')], (), ['return values', 'printed text'])

p('P32', 'Named plots show the quantity they are named after',
  'The map and grain plots named after a quantity (Euler and IPF colours, phases, grains, grain numbers, boundaries, misorientation, average strain, grain outline) show that quantity at every pixel, for every list of phases, background colour and grain shape. '
  'A drawn unit cell is the cell of the crystal turned by the orientation, for Oxford data turned by another 30 degrees about its c axis if it is hexagonal. '
  'A histogram has the given number of bins over the given range (by default that of the data) and counts every value in this range once.',
  [I], 'all label and phase patterns on small maps; orientations from a grid; data sets, bins, ranges and plot types',
  'The tests do not call most of these plots and look at no drawn value.',
  ['ebsd.py', 'base.py', 'plotting.py', 'hrdic.py', 'quat.py'], [('calc_euler_colour', 'ebsd.py'), ('plot_mis_ori', 'ebsd.py'), ('plot_unit_cell', 'quat.py'), ('HistPlot', 'plotting.py')], (),
  ['image arrays', 'faces of the cell', 'bars and markers'])

p('P33', 'Slip bands in a grain are detected and drawn at their angle',
  'A set of parallel bands of high strain that cut a grain is detected at its angle (in the convention of slip traces, to within a few degrees), whatever the angle in the half turn, the sign and scale of the data and the shape of the grain. '
  'Two sets of bands are both detected unless they are closer than the smallest distance or one is under the threshold, and detected bands are drawn through the centre of the grain at their angle.',
  [I], 'all angles of a grid over the half turn, ends included, and pairs of them; grain shapes, spacings, thresholds and smallest distances',
  'No test detects or draws slip bands.',
  ['hrdic.py', 'plotting.py'], [('calc_slip_bands', 'hrdic.py'), ('add_slip_bands', 'plotting.py')], (), ['detected angles', 'drawn arrows'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        assert q['statement'].count('. ') <= 2, q['id']
        f.write(json.dumps(q) + '\n')
print(len(P))
