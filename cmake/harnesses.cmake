util_harness(h_json)
util_harness(h_file)
target_link_libraries(h_file ${CMAKE_DL_LIBS})
util_harness(h_netcdf)
util_harness(h_hdf5)
util_harness(h_logger)
py_harness(x_profiles)
py_harness(x_indata)
py_harness(x_partition)
if(VARIANT STREQUAL sched)
  sched_harness(s_solve)
endif()
core_harness(h_tri)
if(VARIANT STREQUAL sched)
  sched_harness(s_tri)
endif()
py_harness(x_coils)
core_harness(h_fourier)
core_harness(h_run)
