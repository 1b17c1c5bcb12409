# Read by CMake right after project(GridPACK): the data-file workaround of the
# sandbox's own build, then the verification harness targets, added once the
# whole tree has been configured.
include(/opt/vp/missing-data.cmake)
if(CMAKE_SOURCE_DIR STREQUAL CMAKE_CURRENT_SOURCE_DIR)
  cmake_language(DEFER CALL include "${VH_DIR}/targets.cmake")
endif()
