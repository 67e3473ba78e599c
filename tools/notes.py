GRAPH = "explicit-state exploration of a bounded configuration graph (states = parameter assignments, transitions = single-parameter changes) on the implementation, "
LAL = " Trusts the installed LALSuite as reference."
TECH = {
 "C30": GRAPH + "each state viewed from the twelve directions of an exact quadrature on the sphere",
 "C31": GRAPH + "both derivative modes compared with converged finite differences on every edge; every interval of the noise tables",
 "C01": GRAPH + "each state compared with LALSuite",
 "C02": GRAPH + "each state compared with LALSuite",
 "C03": GRAPH + "each state compared with LALSuite",
 "C04": GRAPH + "each state compared with LALSuite",
 "C05": GRAPH + "each state compared with LALSuite",
 "C06": GRAPH + "each state compared with the closed form and LALSuite",
 "C07": "exhaustive enumeration of neighbouring floating-point mass pairs and a mass grid, each compared with exact rational arithmetic",
 "C08": "exhaustive enumeration of parameter products, each compared with the published map in 50-digit arithmetic and through all conversion paths",
 "C09": GRAPH + "checking the law on every edge that changes distance, time or phase",
 "C10": GRAPH + "checking the inclination law on every state and edge",
 "C11": GRAPH + "checking the scaling law on every edge that changes the mass unit",
 "C12": "exhaustive scan of every frequency interval of every enumerated source, with interval refinement down to the float spacing wherever one-sided values or slopes differ",
 "C13": GRAPH + "with all placements of frequencies around the cutoff and all grid layouts up to a size",
 "C14": "exhaustive enumeration of frequency-array layouts (subsets, permutations, repetitions, lengths, spacings) for enumerated sources, compared with single-frequency evaluation",
 "C15": "exhaustive enumeration of the compositions of transformations up to a depth and of argument containers, compared with eager evaluation",
 "C16": GRAPH + "every derivative compared with a converged finite difference along the edge",
 "C17": GRAPH + "each state run in both precisions",
 "C18": "explicit-state exploration of call histories: all ordered pairs (triples) of operations on the real library, with a digest of all library state, against fresh-process results",
 "C19": "stateless model checking of the real code: a controlled scheduler runs every interleaving of two threads at statement or function granularity up to a preemption bound",
 "C20": GRAPH + "each state evaluated in two models or parametrisations that have to agree",
 "C21": GRAPH + "checking the symmetry on every edge that applies a group element",
 "C22": "exhaustive enumeration of all signals and noise weights over small alphabets and of all small uniform grids, compared with the definition",
 "C23": "exhaustive enumeration of all table entries, all intervals and the outside of every curve, compared with a committed copy of the tables",
 "C24": "exhaustive enumeration of keys of a range, counts and parameter ranges on the implementation",
 "C25": "exhaustive enumeration of names (all single-edit neighbours) and of all call histories on two instances up to a depth",
 "C26": GRAPH + "checking the phase law on every edge that changes the reference frequency",
 "C27": GRAPH + "comparing each state with its relabelled image",
 "C28": "exhaustive enumeration of sources and of frequencies over the taper, including its ends and their floating-point neighbours, compared with the published fit",
 "C29": "exhaustive one-parameter scans through enumerated base points, with bisection of every interval down to the float spacing wherever the change does not shrink",
}
ENUM = "Exhaustive over the stated alphabets of sources and transformations; parameters between the alphabet values are not visited. "
NOTE = {
 "C30": ENUM + "The quadrature is exact for (2,2)-mode waves, so no direction is left out.",
 "C31": ENUM + "Slopes by sixth-order differences; the determinant zero of the tidal inverse, equal masses and two equally high maxima are outside the property.",
 "C01": "Exhaustive over the stated alphabets (41 mass ratios x 45 x 45 spins, all states within two parameter changes of three bases, dense final-spin and mass-ratio scans) on 60-odd frequencies." + LAL,
 "C02": "As C01, for PhenomXAS." + LAL,
 "C03": "Exhaustive over the stated alphabets of spin vectors, geometries and masses; one common time shift per source is removed (bounded). States where LALSuite itself loses the direction of J are left out." + LAL,
 "C04": "Exhaustive over the stated alphabets of masses, spins, deformabilities and extrinsic parameters." + LAL,
 "C05": "Exhaustive over the stated alphabets; the reference is assembled from LALSuite's PhenomD, tidal parts and TaylorF2 quadrupole terms, and LALSuite's own model without spins." + LAL,
 "C06": "Exhaustive over a grid of all five parameters, 103 times each; compared with the closed form written independently and with LALSuite inside its window.",
 "C07": "Covers a mass grid and all pairs of neighbouring floats around equal masses, single and double precision, eager and compiled. Other magnitudes are covered by the scale steps only.",
 "C08": "Products of deformabilities, mass ratios (including neighbours of one) and total masses; tolerance follows the conditioning of the map.",
 "C09": ENUM, "C10": ENUM + "The precessing model only with J along L.", "C11": ENUM,
 "C12": "Every interval of a frequency scan of each source is examined and refined; a disturbance narrower than the scan spacing (1/60 e-fold and less near the known boundaries) that leaves both ends alone is not seen. Second derivatives are not claimed.",
 "C13": ENUM + "All layouts of frequencies relative to the cutoff up to the stated length.",
 "C14": "All layouts up to the stated length over a frequency alphabet; long arrays only for the stated lengths.",
 "C15": "All compositions up to depth two (quick) or three (thorough) over the stated transformations; the slowest model has fewer.",
 "C16": "Finite-difference slopes with Richardson error estimates; quick leaves out reverse mode of PhenomXAS (compile time) which thorough includes. Boundaries themselves, equal masses and aligned spins of the precessing model are outside the property.",
 "C17": ENUM + "Tolerance is derived from the size of the phase.",
 "C18": "All ordered pairs of the operations of each group; triples of the cheap ones in thorough. States the digest cannot see (inside compiled extensions) are covered by the results only.",
 "C19": "Two threads; one preemption at statement granularity (function granularity for PhenomXAS), two for the cheap functions. Switches inside one statement or inside JAX are not explored.",
 "C20": ENUM, "C21": ENUM,
 "C22": "All signals over a five-letter alphabet of up to four samples; longer ones only for the library's own waveforms.",
 "C23": "Every table entry and interval in double precision; between neighbours at the stated fractions.",
 "C24": "The stated range of keys and of parameter ranges; uniformity by a Kolmogorov-Smirnov bound per key.",
 "C25": "All names within one edit of a supported one and a list of others; histories up to length two with real calls and three (four) with recorders.",
 "C26": ENUM, "C27": ENUM,
 "C28": ENUM + "The merger frequency is compared with the published fit.",
 "C29": "Scans of every parameter through the stated base points; a jump confined to other regions is not seen.",
}
