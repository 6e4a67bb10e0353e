"""Writes DESIGN.md: the parts about each property from the checks themselves (rule, assumptions), the evidence of
the last runs and the texts below.   /opt/venv/bin/python tools/make_design.py"""
import glob
import importlib.util
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

INTRO = """# Model checking DefDAP

(Written by `tools/make_design.py` from the texts in it, the checks and the seeded bugs.)

## Method

DefDAP is a single-threaded library. What can go wrong in it is not a race, but a *history* (operations on a map in an
unusual order: crop after mask, read before link, generate twice, rotate after reading) or a *configuration* (a grain shape,
phase pattern, boundary pattern, orientation, column order) that no sample of a unit test contains. Both are spaces that
can be bounded and enumerated, so every property is decided by exhaustive exploration of such a space **on the
real code**:

* *stateless exploration of histories*: every sequence of operations over a stated alphabet up to a depth is run on new
  objects made through the public constructors. After every operation the observable state is compared with a small
  reference model that is stepped alongside (a dictionary, a list of points, a set of lines). There is no separate model
  that could drift from the code: the model trace and the implementation trace are the same trace.
* *explicit-state search*: where the state space closes (group elements, orbits of slip systems, crop/mask states,
  quaternions that can be reached from generators) a breadth-first search runs until no new state appears. The states
  are produced by the real code, the reference value is carried along the path.
* *exhaustive enumeration of configurations*: every boundary pattern, label pattern, partition, permutation of
  columns, index triple, pair of end points ... within a bound, the code run once on each and compared with an independent
  reference (breadth-first connected components, rotation matrices from single-axis rotations, group closures,
  Cartesian formulas). This has level `exploration` in the manifest; the ones driven by histories or closed searches have
  `model_checking`.

No check samples: the list of cases is a fixed function of the tier, every case is run, and a case fixes all choices
within it. Continuous quantities (angles, displacements) are enumerated over regular grids that contain the degenerate values
(0, 90, 180 degree, edges and corners of the fundamental zone) and values just next to them: that is a bound like the size
of the maps, stated per property. What is beyond the bounds is not decided (small scope).

The code is driven only through its public interface (constructors, documented methods, the data store, matplotlib events on
real canvases) and read back the same way. There are no hooks in /repo. Maps are built in memory by subclasses whose
`load_data` takes arrays (`mc/fixtures.py`), or from files written by the check in a scratch directory (P19-P21, P25).
Nothing looks at the source text, private names are avoided, so refactorings stay quiet.

`mc/check.py` is the driver: it runs the cases in a fixed order on 8 worker processes, records states, transitions,
evaluations and distinct non-trivial ones, writes the evidence file and on a violation a replay file with the case
(`checks/PXX.py --replay FILE` runs just that). A worker that dies or hangs (90 s for a case that takes seconds) is a violation of its case.
`mc/oracle.py` holds the references that several checks share: symmetry groups closed from their generating axes, Bunge
matrices, connected components. `tools/smoke.py` is the set-up command; it only imports everything.

Numba and matplotlib are used as installed; figures are not rendered (drawing is stubbed; events go through the real canvas
and the artists that would be rendered are inspected).

## Properties and how each is decided
"""

# oracle, and why it reaches what the tests cannot
TEXT = {
    'P01': ('a plain dictionary with counters on the generators',
            'the tests read each item once in one order; a cache that is wrong after overwrite-then-generate, a second output or a failed generator needs the history'),
    'P02': ('all simple paths of the link graph, evaluated by a recursive function; grain lists against map[y, x]',
            'failing or cyclic look-ups leave hidden traversal state behind that only the next look-up shows'),
    'P03': ('smallest angle over the matrix group; the label patterns by definition',
            'sign, equivalent and tolerance errors hit particular pairs of orientations and edges of the map'),
    'P04': ('breadth-first connected components in plain Python',
            'flood fills fail on particular shapes (one pixel wide, concave, last row) and on repeated calls'),
    'P05': ('pairs of labels on both sides of each interior boundary edge',
            'which of the four pixel neighbours are inspected matters only for particular triple points'),
    'P06': ('sets of points; plain minimum of distances', 'the batches of trial distances and empty sets are never reached by the tests'),
    'P07': ('plain flood fill with the documented joining rule; nearest-pixel look-up of labels',
            'joining boundary pixels depends on the order of regions; labels depend on the window'),
    'P09': ('numpy slices of what was loaded, list of points', 'order of crop, mask, binning and reading; aliasing of lists'),
    'P10': ('matrices of the transform; nearest-pixel look-up', 'non-square, cropped and shifted maps exchange x and y silently otherwise'),
    'P11': ('rotation matrices from single-axis rotations, carried along the search', 'half turns, poles of the Euler angles, exact zeros'),
    'P12': ('group closed from its axes, minimum over all pairs of equivalents', 'wrong only for the equivalents that the sample does not hit'),
    'P13': ('fundamental sector by inequalities; orbit of directions', 'directions on edges and corners of the triangle, single precision'),
    'P14': ('fractions and basis vectors written down independently', 'signs, zeros, container types and large indices'),
    'P15': ('orbit search until closed; planes and directions as integer rays', 'families of other systems than those in the package'),
    'P16': ('products of cosines from rotation matrices', 'equivalents, load directions of any length, phases'),
    'P17': ('mean of relative rotations; smallest angle over the group', 'sides of the quaternion sphere, order of pixels'),
    'P18': ('angles between relative rotation matrices; a direct evaluation of the filter', 'signs and equivalents of neighbours; map edges'),
    'P19': ('a model of the two files; item by item comparison', 'combinations of phases, names and shapes; order of save/load/edit'),
    'P20': ('the table that was written', 'column orders, unknown fields, single-pixel maps, sizes that are off by one'),
    'P21': ('the table that was written', 'row orders, sparse grids, wrong headers'),
    'P22': ('differences of neighbouring points; closed form for linear and quadratic fields', 'a basis of all displacement fields decides a linear map'),
    'P23': ('numpy indexing of the map at the points of the grain', 'subsets of grains, backgrounds, grain shapes'),
    'P24': ('a model of the selected point, grain and links', 'histories of clicks, keys and buttons'),
    'P25': ('lists of lines and groups stepped alongside', 'histories of drawing, removing, moving between grains, saving, loading'),
    'P26': ('what each layer should show, as arrays and artists', 'histories of layers, overlapping grains, selections and colours'),
    'P27': ('lists of increments, maps and links; shifted label arrays', 'several increments and maps interleaved; the tests use one of each'),
    'P28': ('arrays turned in numpy; matrices of the orientations', 'lazy results before and after the rotation'),
    'P29': ('Cartesian projection formulas', 'poles, opposite directions, symmetries, conventions'),
    'P30': ('numpy indexing, own bilinear interpolation', 'components of every order; pairs of end points; event orders'),
    'P31': ('the same generator without the decorator', 'reports, messages, errors and nesting in any order'),
    'P33': ('the angle the bands were drawn with; numpy flips and turns of the grain', 'angles at both ends of the half turn, pairs of angles over its end'),
    'P32': ('arrays from single-pixel colours, labels and means; rotation matrices; plain counting', 'phase lists with integer backgrounds, grains of one pixel, values at the ends of the range'),
}

OUTRO = open(os.path.join(HERE, 'tools', 'design_outro.md')).read()


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    out = [INTRO]
    for p in props:
        i = p['id']
        spec = importlib.util.spec_from_file_location(i, os.path.join(HERE, 'checks', i + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.append(f"### {i} {p['title']}\n")
        out.append(f'*Explored*: {m.RULE}.\n')
        out.append(f"*Bounds*: {len(m.cases('quick'))} cases (quick), {len(m.cases('thorough'))} (thorough).")
        try:
            e = json.load(open(os.path.join(HERE, 'tools', 'cost.json')))[i]
            out.append(f"Quick run: {e}.")
        except (OSError, KeyError):
            pass
        out.append('\n*Oracle*: ' + TEXT[i][0] + '. *Beyond the tests*: ' + TEXT[i][1] + '.\n')
        out.append('*Assumptions*: ' + '; '.join(m.ASSUMPTIONS) + '.\n')
        bugs = []
        for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
            b = json.load(open(f))
            if b['property'] == i:
                bugs.append(f"`{os.path.basename(os.path.dirname(f))}` ({b['what_it_breaks']}; needs {b['needs']})")
        if bugs:
            out.append('*Catches the planted bugs*: ' + '; '.join(bugs) + '.\n')
    out.append(OUTRO)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
