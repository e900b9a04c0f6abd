# Runs, time limits and oracle per property.
PLAN = {
 'P01': dict(quick=40000, thorough=4000000, oracle='oracle: sorted reference permutation'),
 'P02': dict(quick=20000, thorough=1500000, oracle='oracle: multiset of particles and global key order'),
 'P03': dict(quick=15000, thorough=1000000, oracle='oracle: aggregates recomputed over all particles'),
 'P04': dict(quick=5000, thorough=120000, oracle='oracle: brute-force neighbour search'),
 'P05': dict(quick=5000, thorough=120000, oracle='oracle: owner\'s payload hash for every copy seen'),
 'P06': dict(quick=5000, thorough=120000, oracle='oracle: bounded progress, collective matching, left-over messages, pending send buffers'),
 'P07': dict(quick=20000, thorough=600000, oracle='oracle: direct summation and rigorous multipole error bound'),
 'P08': dict(quick=6000, thorough=300000, oracle='oracle: all-pairs executable reference of the SPH equations'),
 'P09': dict(quick=4500, thorough=200000, oracle='oracle: all-pairs executable reference with direct gravity'),
 'P10': dict(quick=3500, thorough=150000, oracle='oracle: conserved totals over the recorded history'),
 'P11': dict(quick=5500, thorough=200000, oracle='oracle: totals recomputed from snapshots'),
 'P12': dict(quick=4000, thorough=200000, oracle='oracle: the same run on one rank'),
 'P13': dict(quick=10000, thorough=800000, oracle='oracle: particle values before writing'),
 'P14': dict(quick=10000, thorough=500000, oracle='oracle: file order'),
 'P15': dict(quick=3500, thorough=150000, oracle='oracle: the same run without crashes'),
 'P16': dict(quick=10000, thorough=500000, oracle='oracle: the set of snapshots put on the disk'),
 'P17': dict(quick=8000, thorough=500000, oracle='oracle: model of stale files over full directory listings'),
 'P18': dict(quick=4500, thorough=200000, oracle='oracle: uninterrupted run, or reference model started from the snapshot'),
 'P19': dict(quick=3500, thorough=150000, oracle='oracle: the same run without disk errors'),
 'P20': dict(quick=2400, thorough=60000, oracle='oracle: output times computed from the recorded iteration times; step limits of all particles'),
 'P21': dict(quick=3500, thorough=120000, oracle='oracle: all-pairs reference with minimum-image distances'),
 'P22': dict(quick=4500, thorough=200000, oracle='oracle: extremes and averages recomputed from snapshots'),
 'P24': dict(quick=12000, thorough=800000, oracle='oracle: lattice geometry, closed-form problem states, sums over the file'),
 'P25': dict(quick=4200, thorough=150000, oracle='oracle: the same problem in another frame or other units, on one rank'),
 'P23': dict(quick=3500, thorough=150000, oracle='oracle: all-pairs reference of the relaxation equations'),
}
TITLES = {}
