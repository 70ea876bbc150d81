#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one place so statements and MANIFEST stay in step)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = 'clustertools/'
def P(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[CL + f for f in files], mechanism=[dict(name=n, where=CL + w) for n, w in mech]))
L = []
L.append(P('C01', 'Unit conversion rescales every dimensional quantity by the right factor',
  'Converting a cluster between any two supported unit systems multiplies its age, masses, positions, velocities, cluster-centre offset and galactocentric position/velocity each by the one factor that relates the two systems for that dimension, and records the new system. Conversions are therefore reversible and independent of the route taken. The same holds for the masses, semi-major axes and periods of binaries in binary units.',
  ['inputs', 'histories', 'configurations'],
  'all values of every field, all ordered pairs of unit systems (pckms, kpckms, pcmyr, kpcgyr, nbody, galpy, WDunits, amuse), all chains of conversions, all scale parameters, all binary unit pairs',
  'Tests convert a few hand-picked clusters between some pairs with default scale factors, where many scale factors are 1 and wrong factors cancel; the claim quantifies over all field values, scales and all routes.',
  ['cluster/operations.py', 'cluster/cluster.py'],
  [('unit conversion functions', 'cluster/operations.py'), ('to_units dispatch', 'cluster/operations.py')]))
L.append(P('C02', 'Conversion of single quantities agrees with conversion of the cluster',
  'Converting a standalone length, velocity, squared velocity, time, mass or density into the units of a cluster applies exactly the factor (or the power of it that the dimension requires, two-dimensional density when projected) that converting the cluster itself from the given system would apply. The gravitational constant supplied for a cluster has the same physical value in every unit system it is defined for.',
  ['inputs', 'configurations'],
  'all input values, all pairs of (source system, cluster system), projected or not',
  'Tests exercise a handful of pairs through profiles; with N unit systems and six dimensions most pairs are never executed.',
  ['util/units.py', 'util/constants.py'],
  [('_convert_* helpers', 'util/units.py'), ('_get_grav', 'util/constants.py')]))
L.append(P('C03', 'Origin changes shift each coordinate by its own offset and are reversible',
  'Moving a cluster between the centre, cluster, galaxy and sky origins shifts each star\'s position and velocity component by exactly the matching component of the matching offset (angular offsets projected as documented on the sky), leaves masses, age and the offsets themselves untouched, records the new origin, and any round trip gives back the original coordinates. This holds from every starting origin.',
  ['inputs', 'histories', 'configurations'],
  'all coordinates and offsets, all pairs of origins, Cartesian unit systems and sky coordinates, every centring method on the sky',
  'Tests use offsets that are zero or equal between components, and only a few start/target pairs.',
  ['cluster/operations.py'], [('origin conversion functions', 'cluster/operations.py')]))
L.append(P('C04', 'Analyses hand the cluster back in the units and origin it arrived in',
  'Every analysis, profile, orbit, tail, output or plotting operation that is not itself a conversion leaves the cluster, on every normal return, in the same unit system and origin, with the same star positions, velocities, masses and offsets, as on entry. This holds for every supported starting unit system and origin and every combination of options.',
  ['inputs', 'configurations'],
  'all starting (units, origin) pairs, all option values, all early-return paths',
  'Tests call each analysis from one or two starting states with default options, so early returns and rarely used unit systems are never followed to their exits.',
  ['analysis/functions.py', 'analysis/profiles.py', 'analysis/orbits.py', 'tidaltail/tails.py', 'util/output.py', 'util/plots.py', 'cluster/operations.py'],
  [('save_cluster/return_cluster pairing', 'cluster/operations.py'), ('analysis entry points', 'analysis/functions.py')]))
L.append(P('C05', 'Derived quantities always describe the current coordinates',
  'After any unit conversion, origin change, addition of stars, rotation, virialisation or rescaling performed with its default options, the cluster\'s derived radii, speeds, projected radii and speeds, total and mean mass, half-mass and Lagrange quantities and the radial orderings are those that a fresh analysis of its current positions, velocities and masses would give. No derived quantity from before the change survives.',
  ['inputs', 'histories', 'configurations'],
  'all field values, all starting (units, origin), every public mutating operation',
  'Tests read derived values after very few transitions; stale values are often numerically close to fresh ones.',
  ['cluster/cluster.py', 'cluster/operations.py'], [('analyze and sortstars', 'cluster/cluster.py')]))
L.append(P('C06', 'Cluster methods and library functions are the same operation',
  'Every analysis or operation offered both as a method of the cluster and as a library function performs the same call: each option accepted by the method reaches the function\'s option of the same name unchanged, options left out take the function\'s own defaults, and the method returns or stores what the function returned.',
  ['inputs', 'configurations'],
  'all methods, all options, all option values',
  'Tests call each method mostly with default options, under which a dropped or hard-wired option cannot be seen.',
  ['cluster/cluster.py', 'analysis/functions.py', 'analysis/profiles.py', 'analysis/orbits.py', 'tidaltail/tails.py', 'cluster/operations.py'],
  [('StarCluster facade methods', 'cluster/cluster.py')]))
L.append(P('C07', 'No documented option is silently ignored',
  'Every named parameter of a public function or method can influence its behaviour: it is consulted on some path, and its value reaches the computation, an output or another operation. No public operation accepts an option and then discards it or overwrites it before use.',
  ['inputs', 'configurations', 'programs'],
  'all public functions and methods, all parameters',
  'A test that sets an option and sees a plausible result cannot tell that the option had no effect; most options are never set by tests.',
  ['analysis/functions.py', 'analysis/profiles.py', 'analysis/orbits.py', 'tidaltail/tails.py', 'cluster/operations.py', 'cluster/cluster.py', 'io/load.py', 'util/output.py'],
  [('public signatures', 'analysis/functions.py')]))
L.append(P('C08', 'Every supported configuration runs without an internal programming error',
  'For every public operation, every supported unit system and origin and every documented option value, no execution path reads a name that has no value, calls an internal function with arguments it does not accept, uses an attribute that does not exist on the object or takes apart a result of a different shape. Unsupported requests may be refused, but never by such an accident.',
  ['inputs', 'configurations'],
  'all public entry points, all (units, origin) starting states, all branches on documented option values',
  'Such errors only show when the one configuration that reaches the line runs; tests run a small fraction of the configuration space.',
  ['analysis/functions.py', 'analysis/profiles.py', 'analysis/orbits.py', 'tidaltail/tails.py', 'cluster/operations.py', 'cluster/cluster.py', 'io/load.py', 'util/output.py', 'util/plots.py', 'util/coordinates.py'],
  [('public entry points', 'cluster/cluster.py')]))
L.append(P('C09', 'Arrays supplied by the caller are never modified',
  'No operation changes in place an array, list or mask that the caller passed as an argument, and no result it returns is an array the cluster will later modify in place. Analyses that only read the cluster do not write into its star arrays either.',
  ['inputs', 'histories', 'configurations'],
  'all array arguments of all public functions, all unit systems and option values',
  'In-place aliasing is visible only if the caller looks at its own array again after the call, which tests do not do.',
  ['analysis/functions.py', 'analysis/profiles.py', 'util/units.py', 'util/recipes.py', 'util/output.py', 'cluster/cluster.py'],
  [('in-place operators on arguments', 'util/units.py')]))
L.append(P('C10', 'Subset options select exactly the stars inside the requested limits',
  'Selecting stars by radius, mass, speed, energy, stellar type, population or a caller mask keeps exactly the stars that satisfy every given criterion (limits inclusive, radius and speed projected when projection is requested) and ignores criteria that were not given. Every analysis that offers these options selects by them, and extracting a sub-cluster keeps each per-star attribute of exactly those stars.',
  ['inputs', 'configurations'],
  'all star attribute values, all combinations of criteria, projected or not',
  'Tests combine very few criteria and use limits no star sits on.',
  ['analysis/functions.py', 'analysis/profiles.py', 'cluster/cluster.py'],
  [('_get_subset', 'cluster/cluster.py'), ('sub_cluster', 'cluster/cluster.py')]))
L.append(P('C11', 'Per-star arrays stay the same length and in the same order',
  'Adding single or binary stars, stellar-evolution data or populations to a cluster extends every per-star array by the same number of entries in the same order, so that entry i of every array always describes the same star. Values computed in one ordering of the stars (for example sorted by radius) are never combined with values or masks in another ordering.',
  ['inputs', 'histories', 'configurations'],
  'any number of single and binary stars, any optional argument given or left out, repeated additions, all analyses',
  'Tests add a few identical stars at once; misaligned arrays or masks give plausible numbers.',
  ['cluster/cluster.py', 'analysis/functions.py', 'analysis/profiles.py'],
  [('add_stars family', 'cluster/cluster.py')]))
L.append(P('C12', 'Parallel kernels are race-free and agree with their serial versions',
  'In every compiled parallel loop each iteration writes only memory no other iteration touches (apart from recognised reductions), so results do not depend on thread scheduling. A parallel kernel accumulates the same terms for each star as its serial counterpart.',
  ['schedules', 'inputs'],
  'all thread interleavings, all star arrays',
  'A data race shows only under particular schedules and tests use few stars; agreement is checked, if at all, on one input.',
  ['analysis/functions.py', 'util/recipes.py'], [('numba kernels', 'analysis/functions.py')]))
L.append(P('C13', 'The three coordinate axes are treated alike',
  'Operations that are defined without a preferred direction (centres of mass and density, distances, radii, speeds, binary centres of mass, unit and origin changes in Cartesian coordinates, virialisation, orbit set-up) give results that permute with the axes: relabelling the axes of the input relabels the components of the output in the same way and changes nothing else.',
  ['inputs', 'configurations'],
  'all positions and velocities, all axis pairs',
  'Copy-paste slips between axes cancel for symmetric or isotropic test clusters.',
  ['analysis/functions.py', 'cluster/cluster.py', 'cluster/operations.py', 'analysis/orbits.py', 'util/recipes.py'],
  [('centre finders', 'analysis/functions.py')]))
L.append(P('C14', 'Coordinate transforms are mutually inverse rotations',
  'Transforming positions and velocities from Cartesian to spherical or cylindrical coordinates and back gives the original vectors for all inputs, and the velocity components are the projections of the velocity on the local unit vectors of the position part of the same transform.',
  ['inputs'],
  'all positions off the coordinate singularities, all velocities',
  'Tests check a few points, where wrong signs or swapped angles can cancel.',
  ['util/coordinates.py'], [('cart_to_sphere and inverse', 'util/coordinates.py')]))
L.append(P('C15', 'Results do not depend on the units or origin the cluster happens to be in',
  'The same cluster analysed from any unit system or starting origin gives the same physical result: values returned or stored in the cluster\'s own units differ only by the factor that relates the two unit systems for that quantity\'s dimension, and not at all with the starting origin.',
  ['inputs', 'configurations'],
  'all cluster contents, all pairs of Cartesian unit systems and origins, every analysis and profile',
  'Tests rarely repeat an analysis in several unit systems, and only with unit scales for which mistakes are invisible.',
  ['analysis/functions.py', 'analysis/profiles.py', 'analysis/orbits.py', 'tidaltail/tails.py'],
  [('conversion of results to cluster units', 'analysis/profiles.py')]))
L.append(P('C16', 'Snapshot loading and advancing use one consistent description of the source',
  'A cluster read by any loader carries the source type, directory, naming and unit settings it was loaded with; advancing it to the next snapshot uses the reader for that same source type with those same settings, and every option the user supplied on loading reaches the reader on advancing.',
  ['inputs', 'histories', 'configurations'],
  'all supported source types, all load options, any number of advances',
  'Tests advance only the few source types for which sample data exist, with default options.',
  ['io/load.py', 'io/nbody6.py', 'io/nbody6pp.py', 'io/gyrfalcon.py', 'io/snapshot.py', 'io/amuse.py'],
  [('load_cluster / advance_cluster', 'io/load.py')]))
L.append(P('C17', 'Snapshots written can be read back column for column',
  'Each value written for a star by the snapshot writers is the star attribute, in the requested units and origin, that the corresponding reader assigns to the attribute of the same name when it reads that column. Every record of a binary simulation format is decoded with the type of the quantity it holds.',
  ['inputs', 'configurations'],
  'all star values, all writer options (units, origin, optional columns)',
  'Round-trip tests compare a few columns of one file with default options.',
  ['util/output.py', 'io/snapshot.py', 'io/gyrfalcon.py', 'io/nbody6.py', 'io/nbody6pp.py'],
  [('snapout / fortout / gyrout', 'util/output.py')]))
L.append(P('C18', 'Numerical accuracy of iterative estimators',
  'Iterative centre finding, tidal and limiting radii, core radii, fitted slopes and integrated orbits converge to the mathematically defined quantity within the documented tolerance for every cluster.',
  ['inputs'], 'all star distributions', 'Accuracy is a statement about floating-point values for all inputs; tests sample a few model clusters.',
  ['analysis/functions.py', 'analysis/orbits.py'], [('iterative estimators', 'analysis/functions.py')]))
L.append(P('C19', 'Binning routines partition the sample',
  'Binning a sample into equal-number or fixed-width bins places every finite value within the range in exactly one bin, the counts sum to the sample size, and bin edges are increasing.',
  ['inputs'], 'all samples including ties and empty samples', 'Tests use smooth random samples without ties at edges.',
  ['util/recipes.py'], [('nbinmaker / binmaker', 'util/recipes.py')]))
L.append(P('C20', 'Damaged or truncated snapshot files are reported, not misread',
  'Reading a truncated, empty or malformed snapshot file ends in an error or an empty cluster and never in a cluster with silently wrong star data.',
  ['fault_sequences', 'inputs'], 'all file contents', 'Tests read only well-formed sample files.',
  ['io/nbody6.py', 'io/snapshot.py', 'io/gyrfalcon.py'], [('binary record readers', 'io/nbody6.py')]))
if __name__ == '__main__':
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for p in L:
            f.write(json.dumps(p) + '\n')
    print(len(L))
