"""The table of properties (source of properties.jsonl and of MANIFEST.json)."""
PROPS = []
NA = {}
VG = 'symbolic value-graph extraction (abstract interpretation of the source) and term equivalence'
EFF = 'value-graph extraction with effect, alias and dependence analysis'


def add(id, title, statement, over, text, why, files, mech, technique=VG, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier={'over': over, 'text': text}, why_tests_cant=why,
             anchors={'files': ['pvfactors/' + f for f in files],
                      'mechanism': [{'name': a, 'where': 'pvfactors/' + b} for a, b in mech]},
             technique=technique)
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    PROPS.append(d)


IN = ['inputs', 'configurations']

add('P01', 'View factors obey reciprocity',
    'At every timestep and for every pair of surfaces of the array that both have a length, the '
    'length of the first times its view factor to the second equals the length of the second '
    'times its view factor to the first.',
    IN, 'every array layout, tilt, sun position and pair of surfaces',
    'Tests compare a few matrix rows at a few angles; the law quantifies over all pairs at all '
    'geometries.',
    ['viewfactors/vfmethods.py', 'viewfactors/calculator.py'],
    [('reciprocal view factors', 'viewfactors/vfmethods.py: vf_pvrow_gnd_surf, vf_pvrow_to_pvrow')])
add('P02', 'Each surface distributes its view completely',
    'For every surface with a length, the view factors to all the surfaces and to the sky add up '
    'to one; no surface sees itself, a surface without length exchanges nothing, and the sky row '
    'of the matrix is zero.',
    IN, 'every layout, timestep and surface',
    'Tests check row sums for a handful of fixed arrays.',
    ['viewfactors/calculator.py'],
    [('sky completion and empty-surface masking', 'viewfactors/calculator.py: build_ts_vf_matrix')])
add('P03', 'View factors follow the crossed-strings law with obstruction',
    'The view factor between two facing surfaces equals the crossed-strings formula on their end '
    'points, with the string to a ground point going around the lower edge of the neighbouring '
    'row when that edge is in the way. It is zero for surfaces which do not face each other: the '
    'front sees the ground and the rows on the side it is tilted to, the back those on the other '
    'side, rows only see their direct neighbours, and ground surfaces do not see each other.',
    IN, 'every layout, segmentation, tilt direction, timestep and ordered pair of surfaces',
    'A test can only compare numbers at sampled geometries and mostly on rows in the middle.',
    ['viewfactors/vfmethods.py', 'viewfactors/calculator.py', 'geometry/pvground.py'],
    [('Hottel strings', 'viewfactors/vfmethods.py'),
     ('side of the cut point', 'geometry/pvground.py: ts_surfaces_side_of_cut_point')])
add('P04', 'Absorption factors: angular law, and the view factors stay as they are',
    'With angular-loss functions, the absorption factor of a row surface for another surface or '
    'the sky is the sum, over the angular sections met by the wedge seen from its middle, of the '
    'section view factor times the loss function of its own side at the section middle, with the '
    'same visibility rules as the view factors. Without them it is the view factor times one '
    'minus the reflectivity. Calculating absorption factors leaves the view factors, and the '
    'results published from them, unchanged.',
    IN, 'every layout, timestep, pair of surfaces and pair of loss functions',
    'Tests check a few factors for one loss function; they never compare the view factors before '
    'and after.',
    ['viewfactors/aoimethods.py', 'viewfactors/calculator.py'],
    [('wedge integration', 'viewfactors/aoimethods.py'),
     ('separate matrices', 'viewfactors/calculator.py: build_ts_vf_aoi_matrix')],
    technique=EFF)
add('P05', 'Full mode solves the irradiance balance',
    'After a full-mode run, at every timestep the irradiance leaving each surface is its '
    'reflectivity times its incident irradiance, and the incident irradiance is its own sky '
    'components plus what it exchanges through its view factors with every other surface and the '
    'sky. The view factors published on the array are the ones that were used.',
    IN, 'every layout, model, timestep, reflectivity and irradiance input',
    'Tests compare stored numbers for a few arrays.',
    ['engine.py', 'irradiance/base.py'],
    [('linear system', 'engine.py: run_full_mode')])
add('P06', 'Reported parts add up to the incident irradiance',
    'After a full-mode run, on every surface the reported isotropic, reflected and modelled sky '
    'components add up to the reported incident irradiance, and the isotropic part is the view '
    'factor to the sky times the sky radiance.',
    IN, 'every layout, model, timestep and surface',
    'Tests look at totals of selected surfaces.',
    ['engine.py'], [('decomposition', 'engine.py: run_full_mode')])
add('P07', 'Absorbed irradiance matches the exchanged irradiance',
    'After a full-mode run, the absorbed irradiance of each surface is the sum of the outgoing '
    'irradiance of every surface and the sky weighted by its absorption factors, plus its absorbed '
    'sky components; with no angular-loss functions the absorption factor is one minus its own '
    'reflectivity times the view factor.',
    IN, 'every layout, model, timestep, reflectivity and pair of loss functions',
    'Tests compare stored numbers.',
    ['engine.py', 'viewfactors/calculator.py', 'irradiance/base.py'],
    [('absorbed balance', 'engine.py: run_full_mode')])
add('P08', 'Fast mode balance and selection of the calculated surfaces',
    'A fast-mode run calculates exactly the back surfaces of the requested row and segment (the '
    'arguments of the run win over those of the engine, index 0 included). On each, the incident '
    'irradiance is the sum of the ground, row, sky and own components, each being a view factor '
    'times the matching reflectivity and total irradiance, and the reported parts are these terms.',
    IN + ['histories'], 'every layout, segmentation, selection and timestep',
    'Tests run the middle row of one or two arrays.',
    ['engine.py'], [('fast mode', 'engine.py: run_fast_mode, _calculate_back_ts_segment_qinc')])
add('P09', 'Fast-mode view factors of a back surface are consistent and lawful',
    'The view factors of a back surface to each ground shadow, to shaded, lit and total ground, to '
    'shaded, lit and total neighbouring rows and to the sky follow the crossed-strings law on the '
    'side the back is facing, with obstruction by the neighbouring row. Lit is total minus '
    'shaded, shaded ground is the sum over the shadows, and ground, rows and sky add up to one.',
    IN, 'every layout, row, segment, tilt direction and timestep',
    'Tests check the middle row of one geometry.',
    ['viewfactors/calculator.py', 'viewfactors/vfmethods.py', 'geometry/pvground.py'],
    [('element view factors', 'viewfactors/calculator.py: get_vf_ts_pvrow_element'),
     ('ground, shadow and row view factors', 'viewfactors/vfmethods.py')])
add('P10', 'Light reaching shaded parts follows the transmission of the modules',
    'The direct and circumsolar light on a shaded part of the ground or of a row side is the light '
    'on the lit part of the same side times spacing + (1 - spacing) x transparency, for received '
    'and absorbed light, in both irradiance models. The totals used for reflections by shaded '
    'parts lose exactly the blocked share of that light.',
    IN, 'every irradiance input, angle, transparency and spacing ratio',
    'Tests use one transparency and one spacing and look at few surfaces.',
    ['irradiance/models.py'],
    [('shaded components', 'irradiance/models.py: fit, transform')])
add('P11', 'Every surface receives the components and reflectivity of its own kind',
    'After the irradiance model is applied to the array, every surface carries the reflectivity of '
    'its material, the direct, circumsolar and horizon components of its own kind (ground, front '
    'or back, lit or shaded), an absorbed value equal to the received one times the absorption of '
    'its own side, and the total of its kind. The vectors handed to the balance hold the same '
    'values in the order of the surface numbers, with the sky last.',
    IN, 'every layout, model, albedo (scalar or series), optional measured GHI and loss functions',
    'Tests compare lists of numbers for one sun position.',
    ['irradiance/models.py', 'irradiance/base.py'],
    [('assignment', 'irradiance/models.py: transform'),
     ('vectors', 'irradiance/base.py: get_ts_modeling_vectors, get_summed_components')])
add('P12', 'Beam light only reaches the side facing the sun',
    'At every timestep the direct and circumsolar light reaches the front when the sun is in front '
    'of the row and the back otherwise, never both. The beam is projected with the angle between '
    'the sun and the normal of that side.',
    IN, 'every sun position, tilt and azimuth',
    'Tests use a few sun positions.',
    ['irradiance/models.py'], [('beam optics', 'irradiance/models.py: fit')])
add('P30', 'The report function sees the finished simulation exactly once',
    'In full and fast mode the report function is called once, with the array, after all results '
    'are attached, and the run returns what it returned; without one, the run returns nothing.',
    ['inputs', 'histories'], 'every run, mode and report function',
    'Tests use one report function that reads one value.',
    ['engine.py'], [('report', 'engine.py: run_full_mode, run_fast_mode')], technique=EFF)
add('P31', 'Timesteps without sun are flagged from the inputs alone',
    'The engine flags a timestep as without sun exactly when the zenith is above 90 degrees, the '
    'direct or diffuse input is negative, or both are zero.',
    IN, 'every combination of inputs at every timestep',
    'Tests have no such case.', ['engine.py'], [('flag', 'engine.py: fit')])

add('P19', 'Surfaces are numbered once, in a fixed order',
    'After every fit the surfaces of the array are numbered 0, 1, 2, ... without gap or repetition: '
    'shaded ground, lit ground, then row by row the front and the back, segment by segment, lit '
    'before shaded. The counts and lists of surfaces published by the array, the ground, the rows '
    'and the sides agree with the surfaces that exist.',
    ['configurations', 'histories'], 'every number of rows, segmentation and sequence of fits',
    'Tests count the surfaces of a few arrays.',
    ['geometry/base.py', 'geometry/pvground.py', 'geometry/pvrow.py'],
    [('numbering', 'geometry/base.py: _index_all_ts_surfaces')])
add('P21', 'Shaded and lit ground tile the ground between its limits',
    'At every timestep the lit and shaded ground elements follow each other from -100 m to 100 m '
    'without gap or overlap, all on the ground. Each is split at the points where the lines '
    'through the rows meet the ground: part k lies between cut points k-1 and k, keeps the shading '
    'of its element, and the surfaces said to be left (right) of a cut point are exactly the parts '
    'up to (after) it.',
    IN, 'every layout, sun position, tilt and timestep, shadows partly or fully outside included',
    'Tests look at the coordinates of a few timesteps of one or two arrays.',
    ['geometry/pvground.py'],
    [('elements', 'geometry/pvground.py: _illum_elements_from_coords_and_cut_pts'),
     ('cut points', 'geometry/pvground.py: TsGroundElement')])
add('P22', 'Lit and shaded parts tile every row side from the low end',
    'Each side of a row is split evenly into the number of segments asked for. In each segment the '
    'shaded part starts at the low end of the row and the lit part is the rest; together they '
    'cover the segment exactly, at every timestep, for both tilt directions; flat rows have no '
    'shaded part. The length and the shaded length of a side are the sums over its parts, and the '
    'shaded length never depends on the segmentation.',
    IN, 'every segmentation, tilt, shaded length and timestep',
    'Tests use one segmentation and a few angles.',
    ['geometry/pvrow.py'], [('sides', 'geometry/pvrow.py: TsSide.from_raw_inputs')])
add('P23', 'Rows stand where the layout says, turned the way the inputs say',
    'Row i is centred at i x width / gcr along the array and at the height of the array; its ends '
    'are half a width from the centre along a line turned by the tilt, towards the side the '
    'surface azimuth points to; a flat row is not turned. The normals of front and back surfaces '
    'are opposite and point out of their side. The sun direction used for shadows is the '
    'projection of the sun position on the plane across the rows.',
    IN, 'every layout, axis azimuth, tilt, surface azimuth and sun position',
    'Tests use one axis azimuth and a few tilts.',
    ['geometry/pvarray.py', 'geometry/pvrow.py', 'geometry/base.py'],
    [('rotation and sun', 'geometry/base.py'),
     ('row ends', 'geometry/pvrow.py: TsPVRow._calculate_full_coords')])
add('P24', 'Shadows and direct shading follow the sun and the layout',
    'Every row casts one shadow, bounded by the projections of its two ends on the ground along '
    'the sun direction, limited to the ground extent; when rows shade each other the shadow '
    'reaches the start of the next one. The shaded length of a row follows from its width, the '
    'spacing, the rotation and the sun direction, lies between nothing and the width, and the '
    'first and last rows have none on the side which has no neighbour. The overlap flag says '
    'whether any row is shaded.',
    IN, 'every layout, sun position, tilt direction and timestep',
    'Tests use a few sun positions; the edge rows are looked at once.',
    ['geometry/pvarray.py', 'geometry/pvground.py'],
    [('shading between rows', 'geometry/pvarray.py: _calculate_interrow_shading'),
     ('shadows', 'geometry/pvground.py: from_ts_pvrows_and_angles, from_ordered_shadows_coords')])
add('P13', 'Average reflectivity follows the angular functions unless it is given',
    'The reflectivity derived from an angular-loss function is one minus its average over the '
    'half circle weighted by the projected angle, front and back each from their own function. '
    'An engine built with reflectivity initialization uses a reflectivity given by the user '
    'first, then this average, then the default, on the very array, model and calculator it was '
    'given. The loss function made from the module database depends on the module asked for and '
    'on the angle from the normal only.',
    ['inputs', 'configurations'], 'every loss function, number of sections and combination of '
    'given reflectivities',
    'Tests use one module of the database and one number of sections.',
    ['engine.py', 'irradiance/base.py', 'viewfactors/aoimethods.py'],
    [('initialization', 'engine.py: with_rho_initialization'),
     ('average', 'viewfactors/aoimethods.py: rho_from_faoi_fn')])
add('P14', 'Timesteps do not influence each other',
    'Every result at a timestep (coordinates, shading, view and absorption factors, irradiance '
    'on every surface, flags) depends on the inputs of that timestep only.',
    ['inputs', 'schedules'], 'every series of inputs, order of timesteps and configuration',
    'Tests compare short fixed series; whether another timestep leaks in depends on the values '
    'of both.',
    ['geometry', 'irradiance/models.py', 'viewfactors/calculator.py', 'engine.py'],
    [('vectorization over timesteps', 'engine.py: run_full_mode, run_fast_mode')],
    technique=EFF)
add('P15', 'The runners give what the direct simulation gives, in order',
    'Running the timeseries or the parallel runner calls the report function with the array one '
    'gets by building layout, models, calculator and engine directly from the same options and '
    'inputs, for every option they accept. The parallel runner splits all series at the same '
    'timesteps, simulates each part once, and merges the reports once and in the order of time, '
    'for every number of processes. The example report merges by concatenation.',
    ['inputs', 'configurations', 'schedules'], 'every option, series and number of processes',
    'Tests run two processes on a few timesteps with few options.',
    ['run.py', 'report.py'],
    [('runners', 'run.py: run_timeseries_engine, run_parallel_engine'),
     ('order of the merge', 'run.py: run_parallel_engine')], technique=EFF)
add('P16', 'Numbers, series of one and mappings mean the same',
    'Giving the inputs of one timestep as plain numbers gives the same results as series of '
    'length one; one albedo number is the same as a constant series; an array built or fitted '
    'from a mapping is the same as one built from arguments. Integers mean the same as floating '
    'point numbers, and objects with a faoi method the same as that method.',
    ['inputs', 'configurations'], 'every input value, model, mode and layout',
    'Tests compare single values for one form of the inputs.',
    ['engine.py', 'irradiance/models.py', 'irradiance/utils.py', 'geometry/pvarray.py'],
    [('input conversion', 'engine.py: fit'),
     ('scalar layouts', 'geometry/pvarray.py: fit_from_dict_of_scalars')])
add('P17', 'Earlier use leaves no trace in later results',
    'Results depend only on the last fitted inputs and the last run: an engine fitted or run '
    'before, with the same or other inputs, in the same or another mode, gives what a new one '
    'gives; engines side by side do not influence each other; models and calculators can be '
    'reused with another array; snapshots, aggregation and values stored under other names in '
    'between change nothing.',
    ['histories', 'configurations'], 'every sequence of fits and runs, every mode and model',
    'Tests use each engine once.',
    ['engine.py', 'geometry/pvarray.py', 'irradiance/models.py', 'viewfactors/calculator.py'],
    [('refit', 'engine.py: fit'), ('reinitialized surfaces', 'geometry/pvarray.py: fit')],
    technique=EFF)
add('P20', 'Named values on surfaces: assignment, sums and weighted averages',
    'A value assigned to the array, the ground, a row, a side, a segment or a surface reaches '
    'exactly the surfaces below it, leaves the other names and the given mapping alone, and does '
    'not follow later changes of the mapping. The weighted sum of a name at any level is the '
    'sum of value times length over its surfaces, the weighted average that divided by the '
    'length of the level, which is the sum of the lengths of its surfaces. The same holds for the '
    'geometry of one timestep; every surface has values of its own, also after cutting, shading '
    'or merging, and what is assigned to a snapshot stays in the snapshot.',
    ['inputs', 'configurations'], 'every level, segmentation, name, value and timestep',
    'Tests look at one or two levels with a few numbers.',
    ['geometry/timeseries.py', 'geometry/pvrow.py', 'geometry/pvground.py'],
    [('aggregation', 'geometry/timeseries.py: TsShadeCollection'),
     ('assignment', 'geometry/timeseries.py: update_params')], technique=EFF)
add('P18', 'Data of the caller and shared state are never written to',
    'No run, fit, transform, assignment, layout construction, aggregation, snapshot, plot or '
    'change of the geometry of a timestep changes an object of the caller (input series, layout '
    'and cut mappings, parameter mappings, assigned mappings, lists of surfaces and segments), a '
    'class attribute, a default value, a module variable or a function attribute.',
    ['inputs', 'histories', 'configurations'],
    'every input, model, option and sequence of calls',
    'A test would have to compare every object before and after every call; shared defaults '
    'only show when two objects meet.',
    ['engine.py', 'run.py', 'irradiance', 'geometry', 'viewfactors'],
    [('input preparation', 'engine.py: fit'), ('assignment', 'geometry/timeseries.py: update_params'),
     ('runner parameters', 'run.py'), ('default collections', 'geometry/base.py: PVSegment')],
    technique=EFF)
add('P25', 'Hidden shares of the horizon band and of the circumsolar disk',
    'The share of the horizon band hidden by the next row is the elevation of its top over the '
    'band angle, between 0 and 100 percent, for the row on the side which is faced, and nothing '
    'without such a row. The share of the circumsolar disk hidden follows the covered segment of '
    'a uniform disk, or the gaussian profile, is 0 when nothing and 100 when all is covered, and '
    'is 0 without a neighbour.',
    IN, 'every row, side, tilt direction, band angle, disk angle and disk model',
    'Tests evaluate the formulas at a few points of a single row.',
    ['irradiance/utils.py', 'irradiance/models.py'],
    [('horizon shading', 'irradiance/models.py: _calculate_horizon_shading_pct_ts'),
     ('disk shading', 'irradiance/utils.py: calculate_circumsolar_shading')])
add('P28', 'Wrong use is refused with an error, valid use never is',
    'Loss functions which cannot be called are refused; an array without rows is refused; '
    'collections never mix lit and shaded surfaces, segments keep the two apart and are '
    'straight, sides are straight; what a model or array class has to provide is refused by the '
    'base class. Valid layouts, functions and inputs raise no error in either mode, whatever the '
    'values; nor do runners, snapshots, plots, aggregation and changes of the geometry of a '
    'timestep.',
    IN, 'every layout, combination of shading flags and directions, model and mode',
    'Tests try one wrong use each; that no valid value raises quantifies over all values.',
    ['geometry/base.py', 'geometry/pvarray.py', 'viewfactors/aoimethods.py', 'irradiance/base.py'],
    [('shading of collections', 'geometry/base.py: ShadeCollection._get_shading'),
     ('straight sides', 'geometry/base.py: check_collinear'),
     ('loss functions', 'viewfactors/aoimethods.py: __init__')])
add('P29', 'Results depend on the given inputs only',
    'No result depends on a clock, random numbers, the environment, uninitialized memory, files '
    'other than the package database, or on anything besides the arguments; and the package '
    'changes no global setting of Python, numpy, pandas, warnings or matplotlib when it runs.',
    ['environment', 'inputs', 'configurations'], 'every run, model and environment',
    'A test compares two runs in one environment.',
    ['engine.py', 'run.py', 'irradiance', 'geometry', 'viewfactors', 'plot.py'],
    [('the whole package', 'engine.py'), ('uninitialized arrays', 'viewfactors/calculator.py')],
    technique=EFF + ', and a lint of the names used')
add('P32', 'Sky luminance follows the Perez model at each timestep',
    'The luminance of the isotropic, circumsolar and horizon parts is the component of the Perez '
    'model for the surface, day, sun and irradiance of the timestep over the view factor of the '
    'part, none when the sky is dark; with the sun behind the surface the circumsolar luminance '
    'is that of the surface turned over. The inputs stay beside the results.',
    IN, 'every timestep, surface, sun position and irradiance, series and single values',
    'Tests compare a few values mostly with the sun in front.',
    ['irradiance/utils.py'],
    [('luminance', 'irradiance/utils.py: calculate_luminance_poa_components'),
     ('sun behind', 'irradiance/utils.py: perez_diffuse_luminance')])
add('P26', 'Snapshots at an index show what exists at that timestep',
    'The geometry at an index shows every surface with a length at that timestep once, with its '
    'coordinates, shading, number, direction and the values of that timestep; surfaces without '
    'length are not shown. Overlapping ground shadows are shown as one chain from the first to '
    'the last which keeps the cut points within the shadows, unless merging is switched off; '
    'without cut points every ground element is one surface. The ground has the extent asked '
    'for.',
    ['inputs', 'configurations'], 'every layout, index, pattern of existing and empty surfaces, '
    'overlap flag and combination of options',
    'Tests look at a few arrays at one index; which surfaces are empty changes with the sun.',
    ['geometry/timeseries.py', 'geometry/pvground.py', 'geometry/pvrow.py'],
    [('ground', 'geometry/pvground.py: TsGround.at, _merge_shadow_surfaces'),
     ('rows', 'geometry/pvrow.py: TsPVRow.at, TsSide.at, TsSegment.at'),
     ('surfaces', 'geometry/timeseries.py: TsSurface.at')])
add('P27', 'Cutting and shading move no area: segments stay covered',
    'Cutting a side or casting shadows on it, in any number and order, leaves the same stretch '
    'covered: the shaded surfaces are where shadows were cast, the others where none was, in the '
    'same directions and normals, and lengths, lists and numbers are those of the surfaces '
    'present. A line minus another is what the other does not cover; a point projected along a '
    'vector lies on the line, or there is none; merging gives one shaded surface per segment. '
    'Rows, sides and grounds are built where asked, with the weighted values of their surfaces.',
    ['inputs', 'histories'], 'every line, position, sequence of cuts and shadows, and layout',
    'Tests cast one or two shadows on horizontal lines; sequences, descending lines and touching '
    'or nested shadows are not reached.',
    ['geometry/base.py', 'geometry/utils.py', 'geometry/pvrow.py', 'geometry/pvground.py'],
    [('difference, contains, projection', 'geometry/utils.py'),
     ('shadows and cuts', 'geometry/base.py: cast_shadow, cut_at_point, merge_surfaces')],
    technique='abstract interpretation of the source over lines with an unknown origin (order '
    'domain of positions), compared with interval arithmetic')
add('P33', 'Plots draw the surfaces that exist, in the colours of their kind',
    'Plotting an array, ground, row, side, segment or surface at an index draws every surface '
    'that has a length then, once, at the place it has then, in the colour of its kind (shaded or '
    'lit, row or ground, or the colours asked for), marks nothing but ends of surfaces, writes '
    'the numbers of the surfaces next to them only when asked to, and changes nothing. '
    'Merging and cut points follow the options as in snapshots; the part shown holds all rows.',
    IN, 'every layout, index, plotted element and option',
    'Tests check at most that plotting does not fail.',
    ['geometry/plot.py', 'geometry/base.py', 'geometry/pvrow.py', 'geometry/pvground.py',
     'geometry/timeseries.py'],
    [('plotting', 'geometry/base.py: plot_at_idx, plot'),
     ('lines', 'geometry/plot.py: plot_coords, plot_bounds, plot_line')])
add('P34', "Modelling vectors carry the surfaces' values, then the sky",
    'The vectors a model gives to the mathematical formulation hold, in the order of the surface '
    'numbers, the summed sky and beam light, the reflectivity, its inverse and the total Perez '
    'irradiance of each surface, and then the sky (its luminance, and reflectivity 1). At an '
    'index they hold the values of that timestep. The summed components, absorbed or not, and '
    'the sky term of a surface are the sums over the components of the model.',
    IN, 'every model, layout, value on the surfaces and index',
    'Tests compare a few vectors of small arrays at the first timestep.',
    ['irradiance/base.py', 'irradiance/models.py'],
    [('vectors', 'irradiance/base.py: get_ts_modeling_vectors, get_summed_components'),
     ('sky', 'irradiance/models.py: get_full_ts_modeling_vectors, get_full_modeling_vectors')])
add('P35', 'Lengths, middles, ends and directions are those of the end points',
    'The ends, the middle, the highest and the lowest point, the length and the shaded length of '
    'an element of the array, and its number and list of surfaces, are those of its surfaces and '
    'end points at every timestep; the direction of a surface is square to its normal; '
    'coordinates read as arrays, at an index, or built from arrays are the same numbers.',
    IN, 'every layout, geometry and timestep',
    'Tests read a few lengths of fixed arrays.',
    ['geometry/timeseries.py', 'geometry/pvrow.py', 'geometry/pvground.py'],
    [('coordinates', 'geometry/timeseries.py: TsLineCoords, TsPointCoords')])
add('P36', 'The example report lists the values of the second row, in time order',
    'The example report, by function or by class, holds as lists the averages, weighted by '
    'length, of the incident and the isotropic irradiance of the front and of the back of the '
    'second row; merging gives the values of the parts one after the other.',
    IN, 'every layout, value and number of parts',
    'Tests build one report.',
    ['report.py'], [('report', 'report.py')])

# ---------------------------------------------------------------- not applicable
add('P40', 'View factors and absorption factors lie between zero and one',
    'Every entry of the view-factor matrices and of the absorption matrices is between zero and '
    'one at every timestep.',
    IN, 'every layout, tilt and sun position',
    'Tests see the factors of a few geometries.',
    ['viewfactors/vfmethods.py', 'viewfactors/aoimethods.py'],
    [('view factors', 'viewfactors/vfmethods.py')])
NA['P40'] = ('a range statement over sums of square roots of run-time coordinates with obstructed '
             'strings: no static bound in reach is tight enough to exclude -1e-3, and the '
             'structural part (formula, reciprocity, completion, masking) is decided by P01-P04')
add('P41', 'Full and fast mode agree on the back-side irradiance of long arrays',
    'For the same inputs the fast mode gives the back-side irradiance of a middle row within a few '
    'percent of the full mode.',
    IN, 'every layout and every sky',
    'Tests compare a few fixed cases.',
    ['engine.py'], [('fast mode', 'engine.py: run_fast_mode')])
NA['P41'] = ('the two modes are different approximations of a physical quantity; how far they are '
             'apart is a numerical fact about solutions of linear systems, not a fact of the source')
add('P42', 'Energy is conserved: no more is absorbed than comes in',
    'The energy absorbed by all surfaces never exceeds the energy of sun and sky entering the '
    'array.',
    IN, 'every layout, sky and reflectivity',
    'Tests do not add up the energy.',
    ['engine.py', 'irradiance/models.py'], [('balance', 'engine.py: run_full_mode')])
NA['P42'] = ('needs bounds on the inverse of a matrix of run-time view factors (diagonal dominance '
             'with numeric margins); the balance itself is decided by P05-P08')
add('P43', 'Results change continuously with tilt and sun position',
    'A small change of tilt or sun position changes the irradiance a little, apart from the '
    'horizon and the switch of the side facing the sun.',
    ['inputs'], 'every geometry',
    'Tests never compare neighbouring inputs.',
    ['geometry/pvarray.py', 'viewfactors/vfmethods.py'],
    [('shadows', 'geometry/pvarray.py: fit')])
NA['P43'] = ('continuity across the branch conditions is a limit statement over real arithmetic; the '
             'value-graph domain has no limits, and thresholds in the code make it false within '
             'tolerances')
add('P44', 'Modelled irradiance is close to what is measured on site',
    'Back-side irradiance is close to measurements for realistic sites.',
    ['inputs'], 'every site and season',
    'Tests have no measurements.',
    ['irradiance/models.py'], [('models', 'irradiance/models.py')])
NA['P44'] = 'a statement about the world, not about the source'
