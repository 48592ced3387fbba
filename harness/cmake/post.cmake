get_target_property(_src meqnodes SOURCES)
list(REMOVE_ITEM _src src/UVBrick.cc)
set_property(TARGET meqnodes PROPERTY SOURCES ${_src})
target_sources(meqnodes PRIVATE ${CMAKE_CURRENT_LIST_DIR}/uvbrick_absent.c)
set_property(SOURCE ${CMAKE_SOURCE_DIR}/MeqNodes/src/CasaParmTable.cc TARGET_DIRECTORY meqnodes
  APPEND PROPERTY COMPILE_OPTIONS -UIMPLICIT_CTDS_32BIT -include ${CMAKE_CURRENT_LIST_DIR}/rownr.h)
set_property(TARGET wsrt_j2convert PROPERTY EXCLUDE_FROM_ALL TRUE)
set(VH ${CMAKE_CURRENT_LIST_DIR}/..)
include_directories(${BUILD_INCLUDE_DIR} ${CASACORE_INCLUDE_DIR}/casacore
    ${PYTHON_NUMPY_INCLUDE_DIR} ${PYTHON_INCLUDE_PATH})
function(v_harness name pkg)   # name.cc, package whose config to use, libs...
  add_executable(${name} EXCLUDE_FROM_ALL ${VH}/${name}.cc)
  target_include_directories(${name} BEFORE PRIVATE ${CMAKE_BINARY_DIR}/${pkg} ${VH})
  target_link_libraries(${name} ${ARGN} ${CPP_PLATFORM_LIBS})
  target_compile_options(${name} PRIVATE -fpermissive -w)
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vh)
endfunction()
set(L_DMI dmi timbase)
set(L_OCT octopussy ${L_DMI})
set(L_MEQ meq octopython ${L_OCT} ${CASACORE_LIBRARIES} ${DBM_LIBRARIES} ${PYTHON_LIBRARIES})
set(L_NODES meqnodes meq viscube octopython octopussy dmi timbase ${CASACORE_LIBRARIES} ${DBM_LIBRARIES} ${PYTHON_LIBRARIES})
include(${VH}/harness.cmake)
