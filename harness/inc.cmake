macro (add_subdirectory dir)
  if ("${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}")
    remove_definitions (-Werror)
  endif ()
  if (("${dir}" STREQUAL "test" OR "${dir}" STREQUAL "doc") AND "${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}")
  else()
    _add_subdirectory (${dir} ${ARGN})
  endif ()
endmacro ()
