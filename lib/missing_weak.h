/* The sources decay.cpp and cram.c of PyNE are downloaded by the project's CMake
 * and are not available here. References to their symbols are made weak, so that
 * libcyclus links and loads; whatever calls them crashes. No definition is given. */
#pragma weak pyne_cram_transmute_info
#pragma weak pyne_cram_transmute_ij
#pragma weak pyne_cram_transmute_nucid_to_i
#pragma weak pyne_cram_expm_multiply6
#pragma weak pyne_cram_expm_multiply8
#pragma weak pyne_cram_expm_multiply10
#pragma weak pyne_cram_expm_multiply12
#pragma weak pyne_cram_expm_multiply14
#pragma weak pyne_cram_expm_multiply16
#pragma weak pyne_cram_expm_multiply18
#pragma weak _ZN4pyne8decayers5decayESt3mapIidSt4lessIiESaISt4pairIKidEEEd
