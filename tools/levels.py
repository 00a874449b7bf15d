"""writes tools/levels.json (technique, level and note per property)"""
import json
T = "contracts on the real code (jaxpr / kernel source), obligations discharged by z3 + exact polynomial normal form; bounded stand-in beside it"
A = " Assumes exact arithmetic, jax tracing, jnp.linalg/nonzero by contract; see DESIGN.md."
P = {
 "C01": ("proof", "Obligations cover the kernel for all lattices, couplings and configurations."),
 "C02": ("proof", "Obligations cover the kernel for all integrals with (pq|rs)=(rs|pq), sizes and configurations."),
 "C03": ("proof", "Obligations cover both local-energy functions for an arbitrary wavefunction; constructors, sign rule, chunking bounded."),
 "C04": ("proof", "Obligations cover the dense and sparse local energies for arbitrary integrals, electron numbers and wavefunction; sparse constructor and density matrices bounded. One known finding."),
 "C05": ("proof", "Obligations cover the qGPS update (1-3 sites, any cache satisfying the invariant); plaquette and ARqGPSFull updates; other autoregressive updates bounded."),
 "C06": ("exploration", "Obligations for small electron numbers and arbitrary sites, orbitals, rotations; larger ones bounded."),
 "C07": ("proof", "Obligations cover conditionals, normalisation, causality and amplitude of all AR-qGPS models; PixelCNN bounded."),
 "C08": ("exploration", "Obligations cover the sampling chain and the categorical draw (local dimensions 2-4); end-to-end distributions bounded."),
 "C09": ("exploration", "Obligations cover the hopping rule, the constraint and random states; Hilbert-space enumeration bounded."),
 "C10": ("proof", "Obligations cover reset, sweep, acceptance and counting for an arbitrary model; end-to-end runs bounded."),
 "C11": ("exploration", "Obligations cover qGPS, plaquette and segmented amplitudes, invariance and the initialiser; symmetry builders bounded."),
 "C12": ("exploration", "Obligations for 1-3 electrons per case and everything else arbitrary; larger electron numbers bounded."),
 "C13": ("proof", "Obligations cover the generator kernel, probability conservation and the hermiticity flag for all rates."),
 "C14": ("proof", "Obligations cover every tensor class, mode and weighting for arbitrary log-derivatives; solves end to end bounded."),
 "C15": ("proof", "Obligations cover one step of every optimiser from arbitrary inputs; multi-step runs bounded."),
 "C16": ("exploration", "Obligations cover weighted estimates and stratified weights; counting of unique samples bounded."),
 "C17": ("exploration", "Obligations cover site products, features and imaginary-time amplitudes; fits bounded."),
}
json.dump({k: {"technique": T, "level": l, "note": n + A} for k, (l, n) in P.items()}, open("tools/levels.json", "w"), indent=1)
