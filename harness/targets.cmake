# Harness drivers, built inside GridPACK's own CMake configuration (see ../inject.cmake)
# so that they use its include paths, definitions and libraries.
set(VH_LIBS_CORE
  gridpack_components gridpack_stream gridpack_partition gridpack_environment gridpack_math
  gridpack_configuration gridpack_timer gridpack_parallel gridpack_block_parsers
  ${PARMETIS_LIBRARY} ${METIS_LIBRARY} ${Boost_LIBRARIES} ${GA_LIBRARIES} ${PETSC_LIBRARIES} ${MPI_CXX_LIBRARIES})
add_custom_target(vh_all)
set(VH_WRAP "")
foreach(f NGA_Put NGA_Get NGA_Scatter NGA_Gather NGA_Scatter_acc NGA_Access NGA_Distribution GA_Pgroup_sync NGA_Read_inc GA_Allocate GA_Pgroup_igop MPI_Allreduce MPI_Barrier)
  set(VH_WRAP "${VH_WRAP} -Wl,--wrap=${f}")
endforeach()
add_library(vh_delay OBJECT ${VH_DIR}/vh_delay.cpp)
target_include_directories(vh_delay PRIVATE ${GA_INCLUDE_DIRS} ${MPI_CXX_INCLUDE_PATH})
macro(vh_driver name)
  add_executable(${name} ${VH_DIR}/${name}.cpp $<TARGET_OBJECTS:vh_delay>)
  target_include_directories(${name} BEFORE PRIVATE ${VH_DIR} ${PARMETIS_INCLUDE_DIR})
  target_include_directories(${name} PRIVATE ${GA_INCLUDE_DIRS})
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vh)
  target_link_libraries(${name} ${ARGN} ${VH_LIBS_CORE})
  set_target_properties(${name} PROPERTIES LINK_FLAGS "${VH_WRAP}")
  add_dependencies(vh_all ${name})
endmacro()
vh_driver(vh_net)
vh_driver(vh_par)
vh_driver(vh_map)
vh_driver(vh_math)
set_target_properties(vh_math PROPERTIES LINK_FLAGS "${VH_WRAP} -Wl,--wrap=TSSetEventHandler -Wl,--wrap=TSSetPostEventIntervalStep")
vh_driver(vh_raw)
vh_driver(vh_pf gridpack_powerflow_module gridpack_pfmatrix_components gridpack_ymatrix_components)
vh_driver(vh_util gridpack_analysis)
vh_driver(vh_blk gridpack_dynamic_simulation_full_y_module)
vh_driver(vh_hadrec gridpack_hadrec_module gridpack_dynamic_simulation_full_y_module gridpack_powerflow_module gridpack_pfmatrix_components gridpack_ymatrix_components)
