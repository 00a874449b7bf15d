import json
R="GPSKet/"
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[R+f for f in files],"mechanism":[{"name":n,"where":R+w} for n,w in mech]}
    if state:a["state"]=[{"name":x,"meaning":x,"where":R+files[0]} for x in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
I=["inputs"];IC=["inputs","configurations"];IH=["inputs","histories"];ICH=["inputs","configurations","histories"]
P=[]
P.append(p("C01","Fermi-Hubbard connected elements are exact",
"For every lattice, hopping amplitudes, interaction and batch of electron configurations, the connected configurations and matrix elements returned for the Fermi-Hubbard Hamiltonian, summed per input configuration, are exactly the row of the second-quantised Hamiltonian, including all fermionic signs. The section offsets delimit each configuration's block and no entry belongs to another block. All connected configurations conserve the number of electrons of each spin.",
IC,"every edge list (repeated, reversed, long-range edges), every real t per edge and U, every batch of configurations","A test compares a few small lattices; the sign depends on the parity of electrons between arbitrary sites and the block layout on the batch size.",
["operator/hamiltonian/hubbard.py","operator/fermion.py"],[("connected-element kernel","operator/hamiltonian/hubbard.py:_get_conn_flattened_kernel"),("hopping with parity","operator/fermion.py:apply_hopping")],observe=["get_conn_flattened result"]))
P.append(p("C02","Ab-initio connected elements follow the Slater-Condon rules",
"For every one- and two-electron integral tensor and every batch of electron configurations, the connected configurations and matrix elements returned for the ab-initio Hamiltonian, summed per input configuration, equal the row of the second-quantised Hamiltonian built from those integrals. Section offsets delimit each block exactly and every connected configuration conserves the electron number of each spin.",
IC,"all integral tensors with the symmetries of real orbitals, all electron numbers, all batches","Single, same-spin and opposite-spin double excitations have separate sign and exchange rules; tests sample one molecule.",
["operator/hamiltonian/ab_initio.py","operator/fermion.py"],[("connected-element kernel","operator/hamiltonian/ab_initio.py:_get_conn_flattened_kernel"),("hopping with parity","operator/fermion.py:apply_hopping")]))
P.append(p("C03","Lattice on-the-fly local energies equal the explicit sum",
"For Hubbard, Heisenberg and J1-J2 Hamiltonians, the local energy evaluated on the fly equals the sum over connected configurations of matrix element times amplitude ratio, for every wavefunction, sample array and chunk size, with and without fast updates. Switching the on-the-fly evaluation, sign rule or sample shape never changes the represented Hamiltonian.",
ICH,"all graphs, couplings, samples, chunk sizes and wavefunctions with or without fast update","Tests use one chain and one model; a wrong parity or a mis-ordered update site only shows for specific occupations.",
["operator/hamiltonian/hubbard.py","operator/hamiltonian/J1J2.py"],[("Hubbard local energy","operator/hamiltonian/hubbard.py:local_en_on_the_fly"),("Heisenberg local energy","operator/hamiltonian/J1J2.py:local_en_on_the_fly"),("J1-J2 construction","operator/hamiltonian/J1J2.py:get_J1_J2_Hamiltonian")]))
P.append(p("C04","Ab-initio on-the-fly local energies equal the explicit sum",
"For every set of integrals, every configuration and every wavefunction, the on-the-fly ab-initio local energy (dense and sparse storage, any chunking, with and without fast updates) equals the explicit sum over connected configurations of matrix element times amplitude ratio. The sparse representation represents the same Hamiltonian as the dense one, and the local density matrices contracted with the integrals reproduce the same local energy.",
ICH,"all integrals, electron numbers, samples, chunk sizes, wavefunctions","The loops over occupied/virtual pairs have separate exchange and parity rules for each spin combination; tests sample a single geometry.",
["operator/hamiltonian/ab_initio.py","operator/hamiltonian/ab_initio_sparse.py","operator/fermion.py"],[("dense local energy","operator/hamiltonian/ab_initio.py:local_en_on_the_fly"),("sparse local energy","operator/hamiltonian/ab_initio_sparse.py:local_en_on_the_fly"),("parities","operator/fermion.py:get_parity_multiplicator_hop")]))
P.append(p("C05","Fast-updated GPS amplitudes equal recomputed ones",
"For the GPS family (plain, symmetrised, plaquette and autoregressive), the amplitude and the cached data obtained by updating a few sites from a cache equal those computed from scratch for the new configuration. This holds after any sequence of updates, with repeated or unchanged update sites, for every symmetry group and context function.",
ICH,"all parameters, configurations, update-site lists (including duplicates), update histories, batch sizes","A stale cache entry only shows after a specific sequence of moves.",
["models/qGPS.py","models/plaquetteqGPS.py","models/autoreg_qGPS.py","models/autoreg_qGPS_full.py"],[("qGPS update","models/qGPS.py:__call__"),("plaquette update","models/plaquetteqGPS.py:__call__"),("AR full update","models/autoreg_qGPS_full.py:__call__")],state=["intermediates_cache"]))
P.append(p("C06","Fast-updated determinants and backflow equal recomputed ones",
"For Slater determinants and CPD backflow states, the amplitude and cached data obtained by a fast update equal those computed from scratch for the updated configuration. This holds after any sequence of moves, any number of updated sites and any orbital restriction (restricted or spin-dependent).",
ICH,"all orbitals with nonsingular determinants, configurations, update histories","Rank-one update formulas and cached site products diverge only for particular move sequences.",
["models/slater.py","models/cpd_backflow.py"],[("Slater update","models/slater.py:__call__"),("CPD backflow update","models/cpd_backflow.py:__call__")],state=["intermediates_cache"]))
P.append(p("C07","Autoregressive states are normalised and causal",
"For every autoregressive model, parameters and Hilbert space, each conditional distribution sums to one, depends only on earlier sites, and the squared amplitude of a configuration is the product of its conditionals, so the total probability is one. With the zero-magnetisation or symmetry constraint, configurations outside the sector get zero probability and those inside still sum to one; the amplitude of a symmetrised model is invariant under the symmetries.",
IC,"all parameters, configurations, sites and symmetry groups","Normalisation is a sum over all configurations for all parameters.",
["models/autoreg_qGPS.py","models/autoreg_qGPS_full.py","models/autoreg_plaquetteqGPS.py","models/pixelcnn.py","nn/causal_conv.py"],[("conditionals","models/autoreg_qGPS.py:ARqGPS"),("site-resolved model","models/autoreg_qGPS_full.py:ARqGPSFull"),("pixel CNN","models/pixelcnn.py:ARPixelCNN"),("masked convolutions","nn/causal_conv.py")]))
P.append(p("C08","Autoregressive direct sampling draws from the model distribution",
"A configuration drawn by direct autoregressive sampling has exactly the probability given by the model: each site's local state is chosen from the model's conditional given the sites already drawn. The returned configurations are members of the Hilbert space, constraint included, and the reported log-probabilities belong to the returned configurations.",
ICH,"all models, sequences of random draws, chains and chain lengths","A distributional statement over all random streams; tests only check that sampling runs.",
["sampler/autoreg.py"],[("direct sampler","sampler/autoreg.py:ARDirectSampler"),("categorical choice","sampler/autoreg.py:batch_choice")]))
P.append(p("C09","Fermionic Hilbert spaces and hopping moves keep their sector",
"The fermionic Hilbert space enumerates exactly the configurations with the prescribed electron numbers, numbering and un-numbering are mutually inverse, and random states and products of spaces stay inside the space. Hopping proposals move exactly one electron to an allowed site, report the sites they changed, and make each move with the same probability as its reverse up to the reported correction.",
ICH,"all sizes, electron numbers, electron distributions, random keys, move sequences","Membership and reversibility quantify over all configurations and random draws.",
["hilbert/discrete_fermion.py","hilbert/random/discrete_fermion.py","sampler/rules/fermionic_hopping.py"],[("Hilbert space","hilbert/discrete_fermion.py:FermionicDiscreteHilbert"),("random states","hilbert/random/discrete_fermion.py"),("hopping rule","sampler/rules/fermionic_hopping.py:transition")]))
P.append(p("C10","Fast Metropolis sampling is coherent with the model",
"After every sweep of the fast-update Metropolis sampler, each chain's configuration, stored log-probability and cached data agree with a fresh evaluation of the model. A proposal is accepted exactly when the Metropolis criterion holds for the model's probabilities, and accepted moves are counted per chain.",
ICH,"all models with fast updates, proposals, random draws, numbers of sweeps and resets","Coherence must hold after any history of accepted and rejected moves.",
["sampler/metropolis_fast.py","sampler/rules/exchange_with_update.py","sampler/rules/fermionic_hopping.py"],[("sampler","sampler/metropolis_fast.py:MetropolisFastSampler"),("exchange rule","sampler/rules/exchange_with_update.py")],state=["sampler state: configurations, log-probabilities, cache"]))
P.append(p("C11","GPS amplitudes follow their definition and symmetries",
"The GPS log-amplitude of every configuration is the defined sum over support dimensions of site products (transformed and symmetrised as requested), for every Hilbert space, support dimension and parameter set. Symmetrised amplitudes are invariant under the symmetry group, and freshly initialised states have the documented parameter statistics and shapes.",
IC,"all parameters, configurations, symmetry groups, local dimensions","Tests compare two settings; indexing by local state and site must hold for all.",
["models/qGPS.py","models/segmented_qGPS.py","models/plaquetteqGPS.py","models/jastrow.py","nn/initializers.py"],[("qGPS","models/qGPS.py:qGPS"),("segmented GPS","models/segmented_qGPS.py"),("initialisers","nn/initializers.py")]))
P.append(p("C12","Antisymmetric amplitudes equal their determinant or Pfaffian",
"The log-amplitude of Slater, Slater-Jastrow, Slater-GPS, backflow, antisymmetrised-GPS and Pfaffian states equals the logarithm of the determinant (or Pfaffian, or sum of determinants) of the occupied orbitals, for every configuration, times the stated correlation factor. Symmetrised variants equal the (signed) sum over symmetry images.",
IC,"all orbital parameters, configurations, symmetry groups, electron numbers","Sign and ordering conventions depend on which sites are occupied.",
["models/slater.py","models/slater_jastrow.py","models/slater_qGPS.py","models/backflow.py","models/backflow_jastrow.py","models/asymm_qGPS.py","models/pfaffian.py","models/cpd_backflow.py"],[("Slater","models/slater.py"),("backflow","models/backflow.py"),("Pfaffian","models/pfaffian.py:log_pfaffian"),("antisymmetrised GPS","models/asymm_qGPS.py")]))
P.append(p("C13","The exclusion-process generator is the specified one",
"For all boundary and hopping rates and every configuration, the connected configurations and matrix elements of the asymmetric exclusion process are those of the tilted generator of the process. For zero bias the generator conserves probability, and hermiticity is claimed exactly when it holds.",
IC,"all rates, chain lengths, biases and batches of configurations","Tests cover a few rates; boundaries and empty batches are special cases.",
["operator/hamiltonian/asep.py","operator/asep.py"],[("connected-element kernel","operator/hamiltonian/asep.py:_get_conn_flattened_kernel")]))
P.append(p("C14","Quantum geometric tensors equal their definition",
"For every state, parameter type and sample set, the quantum geometric tensor (dense or matrix-free, with running-average diagonal rescaling or with weighted unique samples) acts as the weighted covariance of the log-derivatives plus the specified diagonal regularisation. Solving with it returns the solution of that linear system, in the same parameter structure.",
IC,"all states, real/complex/holomorphic modes, weights, running averages, shifts, chunk sizes","A matrix identity over all states and vectors.",
["optimizer/qgt/qgt_jacobian_dense_rmsprop.py","optimizer/qgt/qgt_jacobian_dense_unique_samples.py","optimizer/qgt/qgt_onthefly_rmsprop.py"],[("dense RMSProp","optimizer/qgt/qgt_jacobian_dense_rmsprop.py"),("unique samples","optimizer/qgt/qgt_jacobian_dense_unique_samples.py"),("on the fly","optimizer/qgt/qgt_onthefly_rmsprop.py")]))
P.append(p("C15","Optimiser steps solve their stated equations",
"Each optimisation step (stochastic reconfiguration with RMSProp regularisation, dense stochastic reconfiguration, pseudo-inverse solver, minimum-step reconfiguration, amplitude fitting) returns the parameter update defined by its equations for the current samples and local energies. Running averages and schedules are advanced exactly once per step, over any number of steps.",
ICH,"all states, Hamiltonians, schedules, numbers of steps","The update depends on the whole history of gradients.",
["driver/VMC_SRRMSProp.py","driver/minSR.py","driver/autoreg_state_fitting.py","driver/abstract_state_fitting.py","optimizer/sr_rmsprop.py","optimizer/sr_dense.py","optimizer/solvers.py"],[("SR RMSProp driver","driver/VMC_SRRMSProp.py"),("minSR","driver/minSR.py"),("SR RMSProp preconditioner","optimizer/sr_rmsprop.py"),("pseudo-inverse","optimizer/solvers.py")],state=["running average of squared gradients, step counter"]))
P.append(p("C16","Weighted-sample states give weighted estimates",
"A state with unique samples represents every drawn configuration once, with weights that sum to one and are proportional to how often it was drawn; padding has zero weight. A stratified state adds a deterministic set with model weights and samples only its complement. Expectation values, variances and gradients are the weighted averages and covariances over those samples, independent of chunking.",
ICH,"all samplers, sampling limits, deterministic sets, operators, chunk sizes","Weights depend on the random history of samples.",
["vqs/mc/mc_state/state_unique_samples.py","vqs/mc/mc_state/state_stratified_sampling.py","vqs/mc/mc_state/expect.py"],[("unique samples","vqs/mc/mc_state/state_unique_samples.py:samples_with_counts"),("weighted gradient","vqs/mc/mc_state/state_unique_samples.py:grad_expect_hermitian_chunked"),("stratified","vqs/mc/mc_state/state_stratified_sampling.py")]))
P.append(p("C17","Supervised GPS learning and imaginary time steps are exact",
"In supervised GPS learning, the feature matrix contracted with the reference-site parameters equals the model's log-amplitudes for every history of reference-site, data and parameter changes, including vanishing parameters. A fit step replaces only the reference-site parameters, by the solution of the regularised weighted least-squares problem. An imaginary-time-evolved state has the amplitudes of (1 - tau H) applied to the original state.",
ICH,"all parameter tensors, data sets, sequences of reference sites and fits","The cached site products are updated by division along the history.",
["supervised/supervised_qgps.py","supervised/imag_time_step.py"],[("site products","supervised/supervised_qgps.py:update_site_prod_fast"),("kernel","supervised/supervised_qgps.py:kernel_mat_inner"),("fit","supervised/supervised_qgps.py:setup_fit_alpha_dep"),("imaginary time","supervised/imag_time_step.py")],state=["cached site products, feature matrix"]))
open('properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
