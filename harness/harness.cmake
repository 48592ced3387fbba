v_harness(h_meq MEQ ${L_MEQ})
v_harness(h_rep MEQ ${L_MEQ})
v_harness(h_dmi DMI ${L_DMI})
v_harness(h_octo OCTOPUSSY ${L_OCT})
v_harness(h_ptab MEQ ${L_MEQ})
v_harness(h_func MEQ ${L_MEQ})
foreach(n Abs Add Composer Conj Divide Identity Imag MatrixMultiply Max Mean MergeFlags Min Multiply NElements Negate
          Paster Pow2 Product Real ReductionFunction ReplaceFlaggedValues Rms Selector Sqr StdDev Stripper Subtract
          Sum ToComplex Transpose WMean WSum ZeroFlagger)
  target_sources(h_func PRIVATE ${CMAKE_SOURCE_DIR}/MeqNodes/src/${n}.cc)
endforeach()
v_harness(h_cell MEQ ${L_MEQ})
