# Injected into /repo's own CMake project (CMAKE_PROJECT_Grazer_INCLUDE) by bin/check.
# /repo's CMakeLists.txt files are used unchanged; this file only stands in for the
# submodules that are empty in this sandbox and adds the harness targets of /verif.
include_directories(SYSTEM /usr/include/eigen3)
find_package(nlohmann_json REQUIRED)
add_compile_definitions(HAVE_CSTDDEF)
add_custom_target(ipopt_build_target)

get_filename_component(VERIF_DIR "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE)

macro(add_subdirectory _dir)
  if("${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}"
     AND "${_dir}" MATCHES "^(googletest|docs|tests)$")
    # not needed by the checks
    if("${_dir}" STREQUAL "docs")
      add_custom_target(docs)
    elseif("${_dir}" STREQUAL "tests")
      _add_subdirectory("${VERIF_DIR}/harness" "${CMAKE_BINARY_DIR}/verif_harness" EXCLUDE_FROM_ALL)
    endif()
  elseif("${_dir}" STREQUAL "json-schema-validator")
    # Stand-in for pboettch/json-schema-validator (empty submodule, no package).
    add_library(nlohmann_json_schema_validator INTERFACE)
    target_include_directories(nlohmann_json_schema_validator SYSTEM INTERFACE "${VERIF_DIR}/shim")
  else()
    _add_subdirectory(${ARGV})
  endif()
endmacro()

function(verif_all_targets dir out)
  get_property(t DIRECTORY "${dir}" PROPERTY BUILDSYSTEM_TARGETS)
  get_property(s DIRECTORY "${dir}" PROPERTY SUBDIRECTORIES)
  foreach(sub ${s})
    verif_all_targets("${sub}" r)
    list(APPEND t ${r})
  endforeach()
  set(${out} "${t}" PARENT_SCOPE)
endfunction()

function(verif_finish)
  # Ubuntu's Ipopt 3.11.9 has no OptionsList::SetBoolValue; its string form is the same option.
  set_source_files_properties("${CMAKE_SOURCE_DIR}/src/IpoptWrapper/Adaptor.cpp"
    TARGET_DIRECTORY ipoptwrapper
    PROPERTIES COMPILE_OPTIONS "-DSetBoolValue(a,b)=SetStringValue(a,(b)?\"yes\":\"no\")"
               SKIP_PRECOMPILE_HEADERS ON)
  # one precompiled header for everything, for speed only
  add_library(verif_pch OBJECT "${VERIF_DIR}/cmake/pch.cpp")
  target_precompile_headers(verif_pch PRIVATE "${VERIF_DIR}/cmake/pch.hpp")
  verif_all_targets("${CMAKE_SOURCE_DIR}/src" targets)
  verif_all_targets("${VERIF_DIR}/harness" more)
  list(APPEND targets ${more})
  foreach(t ${targets})
    get_target_property(type ${t} TYPE)
    if(type STREQUAL "STATIC_LIBRARY" OR type STREQUAL "EXECUTABLE")
      get_target_property(reuse ${t} PRECOMPILE_HEADERS_REUSE_FROM)
      if(NOT reuse)
        target_precompile_headers(${t} REUSE_FROM verif_pch)
      endif()
    endif()
  endforeach()
endfunction()
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL verif_finish)
