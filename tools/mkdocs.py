"""writes properties.jsonl and MANIFEST.json (run by hand after editing; both are committed)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OP, PA, MO = 'hyvr/input/option_parsing.py', 'hyvr/input/parameters.py', 'hyvr/geo/model.py'
AP, OU, UT, SIM = 'hyvr/assign_points.py', 'hyvr/postprocess/output.py', 'hyvr/utils.py', 'hyvr/sim.py'
AE, ST, CS = 'hyvr/geo/ae_realization.py', 'hyvr/geo/stratum.py', 'hyvr/geo/contact_surface.py'
SA, TA, CA = 'hyvr/geo/sheet_ae.py', 'hyvr/geo/trough_ae.pyx', 'hyvr/geo/channel_ae.pyx'
SH, TR, CH, TU, CU = 'hyvr/geo/sheet.py', 'hyvr/geo/trough.pyx', 'hyvr/geo/channel.pyx', 'hyvr/geo/trough_utils.py', 'hyvr/geo/channel_utils.py'
TESTS = 'The stable tests only parse a few fixed options and one parameter file; '

P = [
 ('C01', 'List options have the declared shape, or are rejected',
  'An option declared with a shape (fixed lengths, free lengths, lengths given by another option or by the entries of another list option, nested to any depth) yields a nested list of exactly that shape whose entries are the given ones, where a single value, or a list covering only the innermost dimensions, is repeated to fill the outer ones. A value that cannot be brought to the shape is rejected with an error; it is never silently cut, padded or reordered.',
  ['inputs', 'configurations'], 'all declared shapes, all values of referenced options, all nested lists of any size and depth',
  TESTS + 'shapes and nesting depths are unbounded.',
  [(OP, 'Option.parse'), (OP, 'expand_to_shape'), (OP, 'compare_shapes'), (OP, 'get_shape'), (OP, 'expand_shape')]),
 ('C02', 'Bracketed text of nested lists is read back as the values it denotes',
  'The text of a nested list in a parameter file, with any nesting depth, ragged lengths and blanks around entries and brackets, is read as the nested list of the same structure with every entry converted to the requested type. Text without brackets is read as the single value.',
  ['inputs'], 'all nested lists of numbers and words and all ways of writing them',
  TESTS + 'lists of unbounded depth, length and spelling are inputs.',
  [(OP, 'parse_list')]),
 ('C03', 'Option lookup: names, alternatives, defaults, types and validation',
  'An option is looked up under its own name first and then under its documented alternative names, converted to its type, and checked by its validity condition; a missing option takes its default if it is optional and is rejected with a missing-option error otherwise, and booleans accept exactly the documented spellings. Parsing a section gives a value for every declared option whatever unknown entries it contains, and parsing the same contents again gives the same result.',
  ['inputs', 'configurations', 'histories'], 'all option tables, all sections and all repetitions of parsing',
  TESTS + 'the table of options and the section contents vary freely.',
  [(OP, 'Section.parse'), (OP, 'Option.parse'), (OP, 'parse_bool'), (OP, 'assert_exists')]),
 ('C04', 'A parameter file yields consistent sections or is refused',
  'Reading a parameter file returns for every section the values written there (or the documented defaults), with facies names replaced by the numbers of the hydrofacies, contact models of strata and elements turned into keyword form and every per-stratum and per-facies list of matching length. A file with a missing section, a reference to an unknown facies or element, an unknown geometry or structure, or a missing dependent option is refused with an error and not partially accepted.',
  ['inputs', 'configurations'], 'all parameter files in the documented format',
  TESTS + 'cross references between sections have unboundedly many combinations.',
  [(PA, 'parse_inifile'), ('hyvr/geo/contact_surface_utils.py', 'parse_contact_model'), ('hyvr/input/options.py', 'option tables')]),
 ('C05', 'Run name, model directory and run directory follow the parameter file',
  'Without explicit settings the run name is the name of the parameter file without its last extension, the model directory is the directory of the file, and the run directory is the run name inside the model directory; a configured run name or model directory (where "select" asks the user) replaces exactly its own part. An automatically generated backup file always refers to the run directory it lies in, relative and absolute, string and path-object file names mean the same, and a missing file raises a file-not-found error.',
  ['inputs', 'configurations'], 'all file names, directories and run settings',
  TESTS + 'file names and directory layouts are unbounded.',
  [(PA, 'parameters'), (PA, 'setup_from_inifile')]),
 ('C06', 'Preparing the run directory never destroys anything it must not',
  'An existing run directory is only emptied when overwriting was requested in the call or, if the call does not say, in the parameter file; otherwise the run stops with an error and leaves every file untouched. Nothing outside the run directory is deleted or changed, links are removed and never followed, and afterwards the run directory contains a backup copy of the parameter file with the same settings.',
  ['inputs', 'configurations', 'histories'], 'all directory trees, all combinations of overwrite settings, all sequences of runs',
  TESTS + 'directory trees and earlier runs are arbitrary.',
  [(PA, 'set_up_directories'), (PA, 'setup_from_inifile'), ('hyvr/__main__.py', 'command line')]),
 ('C07', 'Every realisation is simulated anew and written to its own place',
  'A run with n realisations performs, for each realisation in order, generation of the geometry, assignment of the cells, hydraulic parameters if requested, and then writes exactly the requested formats for the model of this realisation. With several realisations each is written to its own numbered directory inside the run directory, with a single one directly into the run directory, and no realisation overwrites the output of another one.',
  ['configurations', 'histories'], 'all numbers of realisations and output settings',
  TESTS + 'no test runs a simulation with more than one realisation.',
  [(SIM, 'run'), (OU, 'create_outputs')]),
 ('C08', 'Grid geometry: centred cells of the given size that exactly fill the domain',
  'A grid has as many cells per direction as the domain length divided by the spacing (rounded), and the coordinates of the cell centres are the origin plus half a cell plus whole numbers of cells, in increasing order, in the one- and three-dimensional coordinate arrays alike. The extents, spacings and numbers of cells it reports agree with each other.',
  ['inputs'], 'all origins, extents and spacings',
  TESTS + 'floating point geometry for all extents and spacings.',
  [('hyvr/geo/grid.py', 'Grid.__init__')]),
 ('C09', 'Contact surfaces: values, bounds and clipping',
  'A flat contact surface has the given elevation in every column, a random surface is the given mean plus a random field of the requested variance and correlation lengths, one value per column of the grid, and its values always lie between the lowest and highest elevation it reports. Clipping a surface against another takes, column by column, the smaller (larger) of the two values, changes only this surface, and updates its bounds.',
  ['inputs', 'histories'], 'all surfaces and all sequences of clipping operations',
  TESTS + 'surfaces are arbitrary arrays and clipping is applied in chains.',
  [(CS, 'ContactSurface.__init__'), (CS, 'use_lower_surface_value'), (CS, 'use_higher_surface_value')]),
 ('C10', 'Strata and architectural elements tile the model from top to bottom',
  'The generated strata are ordered from top to bottom, the topmost one starts at the model top, the lowest one ends at the model bottom, and each one starts exactly where the one above ends; within a stratum the same holds for its architectural elements with respect to the stratum. Surfaces never cross, every element belongs to a type listed for its stratum with positive probability, and background properties come from the element if given there and from the stratum otherwise.',
  ['inputs', 'configurations', 'histories'], 'all models and all outcomes of the random choices',
  TESTS + 'the stack of surfaces depends on random thicknesses and random surfaces.',
  [(MO, 'Model.generate_model'), (ST, 'Stratum.__init__'), (AE, 'AERealization.__init__')]),
 ('C11', 'Sheets tile their architectural element without gaps or overlap',
  'The sheets of an architectural element are ordered from top to bottom, the first starts at the top and the last ends at the bottom of the element, and each sheet starts exactly where the one above ends, within the element in every column. A massive element consists of exactly one sheet, and otherwise the thickness of a sheet follows the lens thickness scaled by the size trend at its elevation.',
  ['inputs', 'histories'], 'all bounding surfaces, lens thicknesses and size trends',
  TESTS + 'no test generates sheets between arbitrary surfaces.',
  [(SA, 'SheetAE.generate_objects'), (SH, 'Sheet.__init__'), (CS, 'use_higher_surface_value')]),
 ('C12', 'Every cell belongs to the first object from the top that contains it',
  'Every cell of the grid is assigned to the first architectural element from the top which contains its centre in one of its objects or between its bounding surfaces. It gets the numbers of this stratum, element and element type, and the facies, azimuth, dip and object number of the first object from the top that contains the centre, or the background properties of the element where no object does.',
  ['inputs', 'configurations'], 'all models and all cells',
  TESTS + 'the result depends on the whole geometry above each cell.',
  [(AP, 'assign_points'), (AP, 'maybe_assign_points_to_stratum'), (AP, 'maybe_assign_points_to_ae')]),
 ('C13', 'A point is in a sheet exactly between its surfaces; dipping layers are parallel',
  'A point belongs to a sheet exactly if it lies between the bottom and the top of the sheet in its column. A sheet without dipping layers gives its one facies; otherwise the facies is the entry of the alternating sequence for the layer between equidistant parallel planes, perpendicular to the normal vector given by azimuth and dip and spaced by the layer distance, in which the point lies, and azimuth and dip are those of the sheet.',
  ['inputs'], 'all sheets and all points',
  TESTS + 'membership has to hold for every point.',
  [(SA, 'SheetAE.maybe_assign_points_to_object'), (SH, 'Sheet.__init__')]),
 ('C14', 'A point is in a trough exactly if it is in the rotated half-ellipsoid below it',
  'A point belongs to a trough exactly if it is not above the centre of the trough and lies inside its ellipsoid rotated by its azimuth, in periodic elements also when it does so after shifting by the domain length. The lowest part of the given lag thickness gives the lag facies; elsewhere a massive trough gives its facies and orientation, a dipping one the layer between parallel planes, nested bulbs the orientation of the ellipsoid surface through the point, and bulb sets the facies of the nested shell the point lies in.',
  ['inputs'], 'all troughs and all points',
  TESTS + 'membership and structure have to hold for every point.',
  [(TA, 'TroughAE.maybe_assign_points_to_object'), (TR, 'Trough.__init__')]),
 ('C15', 'A point is in a channel exactly if it is below its bank and inside its parabola',
  'A point belongs to a channel exactly if it is not above the top of the channel and, in the cross section at the closest point of the centre line, inside the parabola given by width and depth; its lowest part of the given lag thickness gives the lag facies, and elsewhere dipping layers are counted along the centre line up to this point with the flow direction as azimuth. Massive channels draw their dip and azimuth from the given ranges. Skipping cells found to be too far away never changes the result when cells are visited from top to bottom.',
  ['inputs', 'histories'], 'all channels, all points and all top-down sequences of queries',
  TESTS + 'the shortcut makes the answer depend on the history of queries.',
  [(CA, 'ChannelAE.maybe_assign_points_to_object'), (CH, 'Channel.__init__')]),
 ('C16', 'Alternating facies sequences only use allowed facies and allowed successors',
  'The facies sequence of a layered object has exactly the requested length, contains only facies of its element, and every layer is followed by a facies that the alternating-facies list allows after it. Without an alternating list the sequence still only contains facies of the element.',
  ['inputs', 'histories'], 'all facies lists, all alternating lists, all lengths and random outcomes',
  TESTS + 'sequences of unbounded length with random choices.',
  [(UT, 'get_alternating_facies')]),
 ('C17', 'Troughs and channels are placed in their element and follow the size trend',
  'Generated troughs and channels lie on levels spaced by the aggradation distance, from the top of their element down to its bottom plus the buffer share of their depth; troughs are spread over the domain (or displaced from the troughs of the level above when migrating), channels start at the upstream edge of the domain and cross it along the flow angle. Their sizes are the configured ones times the linear size trend at their elevation, and troughs given explicitly in the parameter file are generated exactly where they are given.',
  ['inputs', 'configurations', 'histories'], 'all element parameters, bounding surfaces and random outcomes',
  TESTS + 'placement is random and unbounded in number.',
  [(TU, 'generate_trough_positions'), (TU, 'rand_trough_params'), (TA, 'TroughAE.generate_objects'), (CA, 'ChannelAE.generate_objects'), (CU, 'ferguson_curve')]),
 ('C18', 'Hydraulic parameters of every cell follow its facies, object and position',
  'Conductivity, porosity and anisotropy ratio of each cell are those of its hydrofacies, perturbed only by the log-random field (conductivity) or random field (porosity) of the heterogeneity level requested, of which each object or facies sees its own field only. Trends multiply the values by the linear trend between the given values over the domain in the given direction, model trends everywhere and element trends only in cells of this element; cells of one facies do not influence those of another one.',
  ['inputs', 'configurations'], 'all assignments of facies and objects to cells and all heterogeneity settings',
  TESTS + 'the assignment of cells is arbitrary.',
  [(MO, 'Model.generate_hydraulic_parameters')]),
 ('C19', 'The conductivity tensor is the rotated principal tensor of the cell',
  'The full conductivity tensor of every cell is symmetric, positive definite and equals the rotation by azimuth and dip of the diagonal tensor with the isotropic conductivity in the plane of the layers and the conductivity divided by the anisotropy ratio perpendicular to them. For anisotropy ratio one it is the isotropic conductivity times the identity, whatever the angles.',
  ['inputs'], 'all conductivities, angles and anisotropy ratios in all cells of all grids',
  TESTS + 'the tensor has to be right for every angle and ratio.',
  [('hyvr/optimized.py', 'set_anisotropic_ktensor')]),
 ('C20', 'Random fields have the requested shape, mean, variance and covariance',
  'A random field has one value per grid column (two-dimensional) or cell (three-dimensional); with a selection of cells, exactly one value per selected cell, in the order of the selection and equal to the field of these cells. Scaling the variance by four doubles the field for the same random numbers, the mean vanishes over the full (embedding) domain, and the covariance is the requested exponential or Gaussian model with the given correlation length in each direction.',
  ['inputs'], 'all grids, selections, variances, correlation lengths and random numbers',
  TESTS + 'random fields are never tested.',
  [(UT, 'specsim')]),
 ('C21', 'Every output format carries the whole model unchanged',
  'Each requested format writes a file from which the fields of the model are read back with the same values at the same grid cells (positions, orientation of axes and top/bottom, cell sizes included). An unknown format is rejected with an error, and a format whose library is not installed leads to a warning while the other formats are still written.',
  ['inputs', 'configurations'], 'all models, grids and selections of formats',
  TESTS + 'output is never tested, and a mixed-up axis only shows for unequal grids.',
  [(OU, 'create_outputs'), (OU, 'to_mat'), (OU, 'to_npz'), (OU, 'to_hdf5'), (OU, 'to_vtr'), (OU, 'to_modflow'), (OU, 'to_mf6'), (OU, 'to_hgs'), (OU, 'to_pickle')]),
 ('C22', 'Old-format parameter files mean the same as their new-format counterparts',
  'A parameter file in the deprecated format is translated to the sections of the new format such that every old option (or its old alternative name) gives the value of its new counterpart: facies names become numbers, strata and element contacts keep their model and depths, elements keep their probabilities, and geometries and structures are renamed. Afterwards it is treated like a new-format file.',
  ['inputs', 'configurations'], 'all old-format parameter files',
  TESTS + 'one old file at most is parsed, and its values are not compared.',
  [(PA, 'get_new_parameters_from_deprecated'), (PA, 'parse_deprecated_inifile'), (PA, 'parse_old_strata_contact_model'), (PA, 'parse_old_elem_contact_model')]),
 ('C23', 'Elements and objects are numbered consistently in every realisation',
  'In every realisation strata and architectural elements are numbered from top to bottom, objects get consecutive numbers over all elements without repetition and background gets its own number, so that each number identifies one object with one type. The per-object property arrays used for assigning cells hold, in order from top to bottom, exactly the properties of the objects of the element, also when a model is generated repeatedly.',
  ['inputs', 'histories'], 'all models and all sequences of realisations',
  TESTS + 'numbers only matter over repeated generation of whole models.',
  [(MO, 'Model.generate_model'), (AE, 'AERealization._create_common_object_arrays'), (AE, 'AERealization._add_object'), (TA, 'create_object_arrays'), (CA, 'create_object_arrays'), (SA, 'create_object_arrays')]),
]

# property -> (proof complete?, note)
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for id_, title, stmt, over, text, why, anch in P:
            assert len(title) <= 80, (id_, len(title))
            f.write(json.dumps(dict(
                id=id_, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=sorted({a for a, _ in anch}),
                             mechanism=[dict(name=n, where='%s:%s' % (a, n)) for a, n in anch], hook_needed=None))) + '\n')
    checks = []
    for id_, *_ in P:
        level, note = NOTES.get(id_, ['exploration', 'Bounded: the contract is evaluated on generated inputs of the real code; sizes and seeds are in the evidence.'])
        checks.append(dict(
            property=id_, quick_cmd='python3-vt -m hv.check %s' % id_, thorough_cmd='python3-vt -m hv.check %s --thorough' % id_,
            technique=('contracts on the functions of /repo, verification conditions generated from their source on every run and discharged by z3, '
                       'failed obligations replayed on the real code' if level == 'proof' else
                       'contracts on the functions of /repo discharged by z3 where in reach; the rest a bounded check of the same contracts on the real code'),
            level=level, level_note=note))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3" && /opt/venv/bin/python -c "import numpy, scipy"',
             checks=checks, not_applicable=[],
             notes='One driver (hv/check.py) for all properties; no hooks in /repo. Unknown or unsupported obligations are reported in the evidence and never as violations.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


main()
