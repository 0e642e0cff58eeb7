_T = "runtime monitoring"
HELD = "Held on the executions the run produced (counts in the evidence file); says nothing about meshes or histories it did not generate. Trusts the harness's own oracle, rustc and the crates in Cargo.lock."
CLAIMS = {
 "C01": {"technique": "runtime monitor: structural invariant checker over the live mesh after every step of random and hostile refinement histories", "note": HELD},
 "C02": {"technique": "runtime monitor: executable reference model of h-refinement compared with the real mesh after every request", "note": HELD + " Two known findings (panic on sides between one and two smallest lengths) are matched by exact signature."},
 "C03": {"technique": "runtime monitor: before/after snapshots around rejected requests, with a reference decision model", "note": HELD},
 "C04": {"technique": "runtime monitor: integer-arithmetic reference model of p-refinement, exhaustive on single amounts, random on sequences", "note": HELD},
 "C05": {"technique": "runtime monitor: edge activation re-derived from element sides and from geometry after every refinement step", "note": HELD},
 "C06": {"technique": "runtime monitor: complete expected set of degrees of freedom derived from the refinement tree, compared both ways", "note": HELD},
 "C11": {"technique": "runtime monitor: every rule checked against exactness identities and independently computed nodes; every sum recomputed from recorded integrand calls", "note": HELD},
 "C12": {"technique": "runtime monitor: sampled functions compared value by value with closed forms over random elements and descendants", "note": HELD},
 "C13": {"technique": "runtime monitor: differential check of the two integral forms against each other and against the exact value", "note": HELD},
 "C26": {"technique": "runtime monitor: reported ranges and mappings compared with corner nodes and an independent path composition", "note": HELD},
 "C14": {"technique": "runtime monitor: every matrix mirrored by a plain model through random operation sequences", "note": HELD},
 "C15": {"technique": "runtime monitor: independent decoder over every written file, with full-device and missing-directory faults", "note": HELD},
 "C16": {"technique": "runtime monitor: residual and nearest-eigenvalue oracle over pencils with known spectra", "note": HELD + " Two known findings (eigenpair of a symmetrised product; mixed vectors of the dense decomposition) are recognised by reproducing what the defect returns."},
 "C08": {"technique": "runtime monitor: spectrum of the scaled assembled matrices of random hp-domains", "note": HELD + " Rank is decided by the smallest eigenvalue of the diagonally scaled mass matrix (threshold 1e-10)."},
 "C09": {"technique": "runtime monitor: every assembled entry compared with independently computed exact integrals", "note": HELD},

 "C10": {"technique": "runtime monitor: exactly-once accounting with integer-valued integrals over pools, delays and concurrent callers; ThreadSanitizer", "note": HELD + " Interleavings are those the scheduler and the injected delays produced."},
 "C25": {"technique": "runtime monitor: every answer of shared samplers compared with fresh constructions, across clones, meshes, threads and failing constructions; ThreadSanitizer", "note": HELD + " Interleavings are those the scheduler and the injected delays produced."},
 "C07": {"technique": "runtime monitor: tangential components of exported fields compared across every shared side and on every wall", "note": HELD},
 "C18": {"technique": "runtime monitor: every exported field value compared with the closed-form superposition; bit-exact model of derived quantities", "note": HELD},
 "C19": {"technique": "runtime monitor: independent strict reader of every exported VTK file, with refused and failing exports", "note": HELD},
 "C20": {"technique": "runtime monitor: every loaded mesh compared item by item with the generated file; planted structural and syntax defects must be refused", "note": HELD},
 "C21": {"technique": "runtime monitor: every exported document read by an independent strict reader and compared with the mesh and with what tree, corners and sides imply; failing targets", "note": HELD},
 "C22": {"technique": "runtime monitor: every query for every id, existing or not, compared with answers derived from refinement paths and geometry; planted reasons to refuse an assembly", "note": HELD},
 "C23": {"technique": "runtime monitor: fields of the coarser space projected onto the assembled fields of the finer one, residual checked", "note": HELD},
 "C24": {"technique": "runtime monitor: spectra of assembled problems compared with one-dimensional oracles, analytic resonances and the spectra of re-described meshes", "note": HELD + " Resonances are compared where the expected relative accuracy is better than 0.5 %, within 25 times that estimate."},
 "C27": {"technique": "runtime monitor: supplied function families that check every call; values, integrals, matrices, fields and spectra against their closed forms", "note": HELD},
 "C28": {"technique": "runtime monitor: complete transcripts of repeated, concurrent and cloned work compared with each other", "note": HELD + " Interleavings are those the scheduler produced."},
 "C17": {"technique": "runtime monitor with enumerated faults: a recording stand-in for the solver command follows a planned outcome; answers, records and directories compared", "level": "fault_enumeration", "note": "Every exit status, fatal signal, truncation length and header defect in the table was injected, plus random sequences, concurrent calls and unusable places. The real SLEPc solver is not installed and not run."},
}
