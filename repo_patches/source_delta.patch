From 8d9a1996c2d125a0dbb4ae25d0da792ffb15dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:39 +0000
Subject: [PATCH 01/51] fix: report incomplete reads and writes of text files

WriteFile returned OK when the data could not be stored (disk full, size
limit); ReadFile threw an unhandled exception for unreadable sources
(directories, I/O errors, symlink loops, over-long names) instead of
returning an error status.
---
 src/vmecpp/cpp/util/file_io/file_io.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/util/file_io/file_io.cc b/src/vmecpp/cpp/util/file_io/file_io.cc
index 6651fcc..5467b97 100644
--- a/src/vmecpp/cpp/util/file_io/file_io.cc
+++ b/src/vmecpp/cpp/util/file_io/file_io.cc
@@ -4,10 +4,11 @@
 // SPDX-License-Identifier: MIT
 #include "util/file_io/file_io.h"
 
+#include <array>
 #include <filesystem>
 #include <fstream>
-#include <iterator>
 #include <string>
+#include <system_error>
 
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
@@ -15,7 +16,8 @@
 namespace fs = std::filesystem;
 
 absl::StatusOr<std::string> file_io::ReadFile(const fs::path& filename) {
-  if (!fs::exists(filename)) {
+  std::error_code error_code;
+  if (!fs::exists(filename, error_code)) {
     return absl::NotFoundError("File " + filename.string() + " not found.");
   }
 
@@ -25,7 +27,17 @@ absl::StatusOr<std::string> file_io::ReadFile(const fs::path& filename) {
                                        " could not be opened for reading.");
   }
 
-  std::string contents(std::istreambuf_iterator<char>{ifs}, {});
+  // Reading via the stream (instead of directly from the stream buffer) turns
+  // read errors into a bad stream state instead of a (premature) end of file.
+  std::string contents;
+  std::array<char, 4096> buffer;
+  while (ifs.read(buffer.data(), buffer.size()) || ifs.gcount() > 0) {
+    contents.append(buffer.data(), ifs.gcount());
+  }
+  if (ifs.bad()) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be read completely.");
+  }
   return contents;
 }
 
@@ -41,6 +53,10 @@ absl::Status file_io::WriteFile(const std::filesystem::path& filename,
 
   file_stream.flush();
   file_stream.close();
+  if (!file_stream) {
+    return absl::DataLossError("File " + filename.string() +
+                               " could not be written completely.");
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 772d1088f99a633e51dfc48efb170f9f13508408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:22 +0000
Subject: [PATCH 02/51] fix: reject JSON integers which do not fit into an int

JsonReadInt and JsonReadVectorInt silently wrapped out-of-range integers,
e.g., 4294967338 was read as 42.
---
 src/vmecpp/cpp/util/json_io/json_io.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/util/json_io/json_io.cc b/src/vmecpp/cpp/util/json_io/json_io.cc
index 86f8178..590ce15 100644
--- a/src/vmecpp/cpp/util/json_io/json_io.cc
+++ b/src/vmecpp/cpp/util/json_io/json_io.cc
@@ -5,13 +5,25 @@
 #include "util/json_io/json_io.h"
 
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "absl/strings/str_format.h"
 
 namespace {
 using nlohmann::json;
+
+// An integer JSON value which can be represented as an `int` without loss.
+bool IsRepresentableAsInt(const json& value) {
+  if (!value.is_number_integer()) {
+    return false;
+  }
+  if (value.is_number_unsigned()) {
+    return std::in_range<int>(value.get<json::number_unsigned_t>());
+  }
+  return std::in_range<int>(value.get<json::number_integer_t>());
 }
+}  // namespace
 
 namespace json_io {
 
@@ -37,7 +49,7 @@ absl::StatusOr<std::optional<int>> JsonReadInt(const json& j,
     return std::nullopt;
   }
 
-  if (!j[name].is_number_integer()) {
+  if (!IsRepresentableAsInt(j[name])) {
     return absl::InvalidArgumentError(
         absl::StrFormat("JSON element '%s' is not an integer", name));
   }
@@ -90,7 +102,7 @@ absl::StatusOr<std::optional<Eigen::VectorXi>> JsonReadVectorInt(
   std::vector<int> entries;
   int i = 0;
   for (const auto& entry : j[name]) {
-    if (entry.is_number_integer()) {
+    if (IsRepresentableAsInt(entry)) {
       entries.push_back(entry);
     } else {
       return absl::InvalidArgumentError(
-- 
2.43.0


From e82d987621775fc66426a5ead9120fa86bd757d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:37 +0000
Subject: [PATCH 03/51] fix: read netCDF variables with type-checked accessors

The untyped nc_get_vara copied the external representation into buffers of
another type: numeric data read as text overflowed the buffer, integer or
single-precision arrays were returned as garbage doubles, and floating-point
scalars were silently truncated when read as int or bool.
---
 src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc | 48 +++++++++++++++++-----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
index eef6215..0570b3c 100644
--- a/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
+++ b/src/vmecpp/cpp/util/netcdf_io/netcdf_io.cc
@@ -36,6 +36,22 @@ absl::StatusOr<int> GetVariableRank(int ncid, int variable_id,
   return rank;
 }
 
+// The NetCDF library would silently truncate floating-point data when asked for
+// an `int`.
+absl::Status CheckNotFloatingPoint(int ncid, int variable_id,
+                                   const std::string& variable_name) {
+  nc_type type = NC_NAT;
+  if (nc_inq_vartype(ncid, variable_id, &type) != NC_NOERR) {
+    return absl::InternalError(absl::StrFormat(
+        "could not determine type of variable '%s'", variable_name));
+  }
+  if (type == NC_FLOAT || type == NC_DOUBLE) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Not an integer variable: %s", variable_name));
+  }
+  return absl::OkStatus();
+}
+
 absl::StatusOr<std::vector<size_t> > GetVariableDimensions(
     int ncid, int variable_id, int rank, const std::string& variable_name) {
   std::vector<int> dimension_ids(rank, 0);
@@ -81,6 +97,12 @@ absl::StatusOr<bool> NetcdfReadBool(int ncid,
         absl::StrFormat("Not a rank-0 array: %s", logical_variable_name));
   }
 
+  absl::Status type_status =
+      CheckNotFloatingPoint(ncid, *variable_id, logical_variable_name);
+  if (!type_status.ok()) {
+    return type_status;
+  }
+
   int variable_data = 0;
   if (nc_get_var_int(ncid, *variable_id, &variable_data) != NC_NOERR) {
     return absl::InternalError(
@@ -121,8 +143,8 @@ absl::StatusOr<char> NetcdfReadChar(int ncid,
   // actually read data
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<char> variable_data(1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -145,6 +167,12 @@ absl::StatusOr<int> NetcdfReadInt(int ncid, const std::string& variable_name) {
         absl::StrFormat("Not a rank-0 array: %s", variable_name));
   }
 
+  absl::Status type_status =
+      CheckNotFloatingPoint(ncid, *variable_id, variable_name);
+  if (!type_status.ok()) {
+    return type_status;
+  }
+
   int variable_data = 0;
   if (nc_get_var_int(ncid, *variable_id, &variable_data) != NC_NOERR) {
     return absl::InternalError(
@@ -209,8 +237,8 @@ absl::StatusOr<std::string> NetcdfReadString(int ncid,
   // one extra element that stays at 0 in order to properly zero-terminate the
   // string
   std::vector<char> variable_data(total_element_count + 1, 0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_text(ncid, *variable_id, read_start_indices.data(),
+                       dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -247,8 +275,8 @@ absl::StatusOr<std::vector<double> > NetcdfReadArray1D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions->data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions->data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -283,8 +311,8 @@ absl::StatusOr<std::vector<std::vector<double> > > NetcdfReadArray2D(
 
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
@@ -327,8 +355,8 @@ NetcdfReadArray3D(int ncid, const std::string& variable_name) {
   size_t total_element_count = dimensions[0] * dimensions[1] * dimensions[2];
   std::vector<size_t> read_start_indices(*rank, 0);
   std::vector<double> variable_data(total_element_count, 0.0);
-  if (nc_get_vara(ncid, *variable_id, read_start_indices.data(),
-                  dimensions.data(), variable_data.data()) != NC_NOERR) {
+  if (nc_get_vara_double(ncid, *variable_id, read_start_indices.data(),
+                         dimensions.data(), variable_data.data()) != NC_NOERR) {
     return absl::InternalError(
         absl::StrFormat("could not read variable '%s'", variable_name));
   }
-- 
2.43.0


From ff4097259bc95bdcc8fd6f4ba06c3a7dbd0de422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:54 +0000
Subject: [PATCH 04/51] fix: convert HDF5 string vectors via C strings and
 check dataset ranks

WriteH5Dataset/ReadH5Dataset for std::vector<std::string> handed the
std::string objects to HDF5, which expects char* elements, and crashed.
Reading a dataset of another rank into a vector or matrix overran the
extent array or used uninitialized extents.
---
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc | 40 ++++++++++++++++++++------
 src/vmecpp/cpp/util/hdf5_io/hdf5_io.h  | 25 +++++++++-------
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
index 1805011..09d54fe 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.cc
@@ -32,7 +32,14 @@ void hdf5_io::WriteH5Dataset(const std::vector<std::string>& vs,
   H5::DataSpace dataspace(/*rank=*/1, /*dims=*/&size);
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
   H5::DataSet dataset = file.createDataSet(name, str_type, dataspace);
-  dataset.write(vs.data(), str_type);
+
+  // variable-length strings are handed over to HDF5 as C strings
+  std::vector<const char*> c_strings;
+  c_strings.reserve(vs.size());
+  for (const std::string& s : vs) {
+    c_strings.push_back(s.c_str());
+  }
+  dataset.write(c_strings.data(), str_type);
 }
 
 void hdf5_io::WriteH5Dataset(const std::string& str, const std::string& name,
@@ -47,9 +54,7 @@ void hdf5_io::ReadH5Dataset(hdf5_io::RowMatrixXd& m, const std::string& dataset,
                             H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
 
-  H5::DataSpace space = ds.getSpace();
-  std::array<hsize_t, 2> dims;
-  space.getSimpleExtentDims(dims.data());
+  const std::vector<hsize_t> dims = GetExtentOfRank(ds, /*rank=*/2);
 
   m.resize(static_cast<Eigen::Index>(dims[0]),
            static_cast<Eigen::Index>(dims[1]));
@@ -61,12 +66,20 @@ void hdf5_io::ReadH5Dataset(std::vector<std::string>& vs,
   H5::DataSet ds = file.openDataSet(dataset);
 
   H5::DataSpace space = ds.getSpace();
-  hsize_t size;
-  space.getSimpleExtentDims(&size);
+  const hsize_t size = GetExtentOfRank(ds, /*rank=*/1)[0];
 
-  vs.resize(size);
+  // variable-length strings are returned by HDF5 as C strings it allocated
   H5::StrType str_type(H5::PredType::C_S1, H5T_VARIABLE);
-  ds.read(vs.data(), str_type);
+  std::vector<char*> c_strings(size, nullptr);
+  ds.read(c_strings.data(), str_type);
+
+  vs.resize(size);
+  for (hsize_t i = 0; i < size; ++i) {
+    vs[i] = c_strings[i] == nullptr ? "" : c_strings[i];
+  }
+  if (size > 0) {
+    H5::DataSet::vlenReclaim(c_strings.data(), str_type, space);
+  }
 }
 
 void hdf5_io::ReadH5Dataset(std::string& str, const std::string& dataset,
@@ -95,3 +108,14 @@ std::vector<hsize_t> hdf5_io::GetExtent(const H5::DataSet& dataset) {
   dataspace.getSimpleExtentDims(extent.data(), NULL);
   return extent;
 }
+
+std::vector<hsize_t> hdf5_io::GetExtentOfRank(const H5::DataSet& dataset,
+                                              int rank) {
+  if (GetRank(dataset) != rank) {
+    throw H5::DataSetIException(
+        "GetExtentOfRank", "expected a dataset of rank " +
+                               std::to_string(rank) + " but got rank " +
+                               std::to_string(GetRank(dataset)));
+  }
+  return GetExtent(dataset);
+}
diff --git a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
index aae43ba..b62a7b3 100644
--- a/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
+++ b/src/vmecpp/cpp/util/hdf5_io/hdf5_io.h
@@ -76,6 +76,19 @@ void WriteH5Dataset(Scalar v, const std::string& name, H5::H5File& file) {
   dataset.write(&v, type);
 }
 
+// Determine the rank of a given HDF5 dataset,
+// i.e., the number of array dimensions
+int GetRank(const H5::DataSet& dataset);
+
+// Get the extent, i.e., the size along each dimension,
+// of a given HDF5 dataset
+std::vector<hsize_t> GetExtent(const H5::DataSet& dataset);
+
+// Get the extent of a given HDF5 dataset,
+// which is required to have the given rank.
+// Throws H5::DataSetIException if the dataset has a different rank.
+std::vector<hsize_t> GetExtentOfRank(const H5::DataSet& dataset, int rank);
+
 void ReadH5Dataset(RowMatrixXd& m, const std::string& dataset,
                    H5::H5File& file);
 
@@ -88,9 +101,7 @@ template <typename Vector>
 void ReadH5Dataset(Vector& v, const std::string& dataset, H5::H5File& file) {
   H5::DataSet ds = file.openDataSet(dataset);
 
-  H5::DataSpace space = ds.getSpace();
-  hsize_t size;
-  space.getSimpleExtentDims(&size);
+  const hsize_t size = GetExtentOfRank(ds, /*rank=*/1)[0];
 
   H5::PredType type = H5::PredType::NATIVE_DOUBLE;
   if constexpr (std::is_same_v<Vector, Eigen::VectorXi> ||
@@ -131,14 +142,6 @@ extern template void ReadH5Dataset(int& v, const std::string& dataset,
 extern template void ReadH5Dataset(bool& v, const std::string& dataset,
                                    H5::H5File& file);
 
-// Determine the rank of a given HDF5 dataset,
-// i.e., the number of array dimensions
-int GetRank(const H5::DataSet& dataset);
-
-// Get the extent, i.e., the size along each dimension,
-// of a given HDF5 dataset
-std::vector<hsize_t> GetExtent(const H5::DataSet& dataset);
-
 // Read an D dimensional dataset into a linear array
 template <typename Vector>
   requires std::is_same_v<Vector, Eigen::VectorXd> ||
-- 
2.43.0


From 31ab0d2d85a220daa012efe1a7e8cfa2cc964de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:05 +0000
Subject: [PATCH 05/51] fix: keep the axis guess when converting JSON to INDATA

The VMEC++ JSON names are raxis_c, zaxis_s, raxis_s, zaxis_c, but the
conversion looked up the INDATA names and silently dropped the axis.
Also escape single quotes in string values.
---
 src/vmecpp/_util.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index f5518fc..9eda13b 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -229,10 +229,11 @@ def vmecpp_json_to_indata(vmecpp_json: dict[str, Any]) -> str:
     indata += _int_to_namelist("nvacskip", vmecpp_json)
 
     indata += "\n  ! initial guess for magnetic axis\n"
-    indata += _float_array_to_namelist("raxis_cc", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("raxis_cs", vmecpp_json)
-    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json)
+    # NOTE: the axis coefficients have different names in INDATA and in VMEC++ JSON
+    indata += _float_array_to_namelist("raxis_cc", vmecpp_json, json_name="raxis_c")
+    indata += _float_array_to_namelist("zaxis_cs", vmecpp_json, json_name="zaxis_s")
+    indata += _float_array_to_namelist("raxis_cs", vmecpp_json, json_name="raxis_s")
+    indata += _float_array_to_namelist("zaxis_cc", vmecpp_json, json_name="zaxis_c")
 
     indata += "\n  ! (initial guess for) boundary shape\n"
     indata += _fourier_coefficients_to_namelist("rbc", vmecpp_json)
@@ -256,7 +257,9 @@ def _string_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     if varname not in vmecpp_json:
         return ""
 
-    return f"  {varname} = '{vmecpp_json[varname]}'\n"
+    # a single quote within a Fortran character literal is written as two
+    value = str(vmecpp_json[varname]).replace("'", "''")
+    return f"  {varname} = '{value}'\n"
 
 
 def _int_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
@@ -284,13 +287,16 @@ def _int_array_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
     return ""
 
 
-def _float_array_to_namelist(varname: str, vmecpp_json: dict[str, Any]) -> str:
+def _float_array_to_namelist(
+    varname: str, vmecpp_json: dict[str, Any], json_name: str | None = None
+) -> str:
+    json_name = json_name or varname
     if (
-        varname in vmecpp_json
-        and vmecpp_json[varname] is not None
-        and len(vmecpp_json[varname]) > 0
+        json_name in vmecpp_json
+        and vmecpp_json[json_name] is not None
+        and len(vmecpp_json[json_name]) > 0
     ):
-        elements = ", ".join([f"{x:.20e}" for x in vmecpp_json[varname]])
+        elements = ", ".join([f"{x:.20e}" for x in vmecpp_json[json_name]])
         return f"  {varname} = {elements}\n"
     return ""
 
-- 
2.43.0


From ee359ba79a9af3308d636e1bdf4c97870a1aa7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:36 +0000
Subject: [PATCH 06/51] fix: progress display with non-finite residuals

An infinite first residual made the progress fraction NaN, which was shown
as 100%. In single-line mode, a change from a finite residual to 'nan' left
characters of the previous line on the display.
---
 .../cpp/vmecpp/vmec/iteration_logger/iteration_logger.cc   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/iteration_logger/iteration_logger.cc b/src/vmecpp/cpp/vmecpp/vmec/iteration_logger/iteration_logger.cc
index fa9aead..045fd07 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/iteration_logger/iteration_logger.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/iteration_logger/iteration_logger.cc
@@ -90,7 +90,7 @@ void IterationLogger::LogIteration(int iter, double fsqr, double fsqz,
   StageState& stage = stages_[current_stage_];
   double fsq_total = fsqr + fsqz + fsql;
 
-  if (!stage.initial_fsq_set && fsq_total > 0.0) {
+  if (!stage.initial_fsq_set && fsq_total > 0.0 && std::isfinite(fsq_total)) {
     stage.initial_log_fsq = std::log10(fsq_total);
     stage.initial_fsq_set = true;
   }
@@ -292,8 +292,9 @@ void IterationLogger::RenderSingleLineProgress() {
     output_ << absl::StrFormat("  delbsq=%.2e", s.last_delbsq);
   }
 
-  // Pad with spaces to clear any leftover characters from a longer line.
-  output_ << "    ";
+  // Pad with spaces to clear any leftover characters from a longer line,
+  // e.g., when going from a finite residual to "nan".
+  output_ << std::string(12, ' ');
   output_ << std::flush;
 }
 
-- 
2.43.0


From 177172ea2673f4c2a0a90c7c15b18e518fc22ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:47 +0000
Subject: [PATCH 07/51] fix: interpolate line segment profiles between the
 enclosing knots

The knot at or above x was used as the lower end of the segment, so the value was
extrapolated from the following segment (and the last value was returned
within the whole last segment). The integrated form read past the last knot
and did not start at the axis.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 65 ++++++++-----------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 9bbd514..8971554 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1055,24 +1055,26 @@ double RadialProfiles::evalLineSegment(const Eigen::VectorXd& splineKnots,
   if (n < 2 || n != static_cast<int>(splineValues.size())) {
     return 0.0;
   }
-  auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
-  if (it >= (splineKnots.end() - 1)) {
-    // x is out of bounds (or x1 = it+1 would be out of bounds)
-    return splineValues[n - 1];
-  }
-  if (it == splineKnots.begin()) {
-    // x is below the first knot
+  if (x <= splineKnots[0]) {
     return splineValues[0];
   }
-  const double x0 = *it;
-  const double x1 = *(it + 1);
-  int ilow = static_cast<int>(std::distance(splineKnots.begin(), it));
+  if (x >= splineKnots[n - 1]) {
+    return splineValues[n - 1];
+  }
+  // first knot at or above x, so x is within [ilow, ilow + 1]
+  const auto it = std::lower_bound(splineKnots.begin(), splineKnots.end(), x);
+  const int ilow =
+      static_cast<int>(std::distance(splineKnots.begin(), it)) - 1;
+  const double x0 = splineKnots[ilow];
+  const double x1 = splineKnots[ilow + 1];
   const double y0 = splineValues[ilow];
   const double y1 = splineValues[ilow + 1];
   const double t = (x - x0) / (x1 - x0);
   return (1.0 - t) * y0 + t * y1;
 }
 
+// Integral from the axis (0) to x of the line segment profile, including its
+// constant continuation outside the range of knots.
 double RadialProfiles::evalLineSegmentIntegrated(
     const Eigen::VectorXd& splineKnots, const Eigen::VectorXd& splineValues,
     double x) {
@@ -1081,38 +1083,23 @@ double RadialProfiles::evalLineSegmentIntegrated(
     return 0.0;
   }
 
-  auto integrate_segment = [](double x0, double x1, double y0, double y1) {
-    const double m = (y1 - y0) / (x1 - x0);
-    const double b = y0 - m * x0;
-    return m * 0.5 * (x1 * x1 - x0 * x0) + b * (x1 - x0);
-  };
-
-  double xi = x;
   double result = 0.0;
+  auto add_segment = [&](double x0, double x1) {
+    // the part of the segment which is within [0, x]
+    const double from = std::max(x0, 0.0);
+    const double to = std::min(x1, x);
+    if (from < to) {
+      result += 0.5 * (to - from) *
+                (evalLineSegment(splineKnots, splineValues, from) +
+                 evalLineSegment(splineKnots, splineValues, to));
+    }
+  };
 
-  if (xi <= splineKnots[0]) {
-    result += integrate_segment(0.0, xi, splineValues[0],
-                                evalLineSegment(splineKnots, splineValues, xi));
-    return result;
-  }
-
-  int idx = 0;
-  while (idx < n - 1 && xi > splineKnots[idx + 1]) {
-    result += integrate_segment(splineKnots[idx], splineKnots[idx + 1],
-                                splineValues[idx], splineValues[idx + 1]);
-    ++idx;
-  }
-
-  const double x0 = splineKnots[idx];
-  const double x1 = std::min(xi, splineKnots[idx + 1]);
-  const double y0 = splineValues[idx];
-  const double y1 = splineValues[idx + 1];
-  result += integrate_segment(x0, x1, y0, y1);
-
-  if (xi > splineKnots[n - 1]) {
-    result += integrate_segment(splineKnots[n - 1], xi, splineValues[n - 1],
-                                evalLineSegment(splineKnots, splineValues, xi));
+  add_segment(0.0, splineKnots[0]);
+  for (int i = 0; i < n - 1; ++i) {
+    add_segment(splineKnots[i], splineKnots[i + 1]);
   }
+  add_segment(splineKnots[n - 1], x);
 
   return result;
 }
-- 
2.43.0


From 7fe3f3500202995b1064f91ae09c7e5579a317df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:47 +0000
Subject: [PATCH 08/51] fix: normalise sum_atan profiles so that they are
 continuous at the edge

The value at x = 1 is c0 plus the sum of the amplitudes, which is the limit of
the arctangent terms only with the factor 2/pi of the original VMEC formula.
---
 .../vmec/radial_profiles/radial_profiles.cc   | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 8971554..281dca4 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -669,6 +669,9 @@ double RadialProfiles::evalGaussTrunc(const Eigen::VectorXd& coeffs, double x,
 }
 
 double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
+  // c0 + 2/pi * sum_i a_i * atan(b_i * x^c_i / (1 - x)^d_i), which approaches
+  // c0 + sum_i a_i at x = 1
+  constexpr double kTwoOverPi = 2.0 / M_PI;
   double ret = 0.0;
 
   if (coeffs.size() > 0) {
@@ -693,24 +696,29 @@ double RadialProfiles::evalSumAtan(const Eigen::VectorXd& coeffs, double x) {
     }
   } else {
     if (coeffs.size() >= 5) {
-      ret += coeffs[1] * std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
-                                   std::pow(1 - x, coeffs[4]));
+      ret += kTwoOverPi * coeffs[1] *
+             std::atan(coeffs[2] * std::pow(x, coeffs[3]) /
+                       std::pow(1 - x, coeffs[4]));
     }
     if (coeffs.size() >= 9) {
-      ret += coeffs[5] * std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
-                                   std::pow(1 - x, coeffs[8]));
+      ret += kTwoOverPi * coeffs[5] *
+             std::atan(coeffs[6] * std::pow(x, coeffs[7]) /
+                       std::pow(1 - x, coeffs[8]));
     }
     if (coeffs.size() >= 13) {
-      ret += coeffs[9] * std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
-                                   std::pow(1 - x, coeffs[12]));
+      ret += kTwoOverPi * coeffs[9] *
+             std::atan(coeffs[10] * std::pow(x, coeffs[11]) /
+                       std::pow(1 - x, coeffs[12]));
     }
     if (coeffs.size() >= 17) {
-      ret += coeffs[13] * std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
-                                    std::pow(1 - x, coeffs[16]));
+      ret += kTwoOverPi * coeffs[13] *
+             std::atan(coeffs[14] * std::pow(x, coeffs[15]) /
+                       std::pow(1 - x, coeffs[16]));
     }
     if (coeffs.size() >= 21) {
-      ret += coeffs[17] * std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
-                                    std::pow(1 - x, coeffs[20]));
+      ret += kTwoOverPi * coeffs[17] *
+             std::atan(coeffs[18] * std::pow(x, coeffs[19]) /
+                       std::pow(1 - x, coeffs[20]));
     }
   }
 
-- 
2.43.0


From 0351260a7a0b72c02f4ca939b62dbb8137e60625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:25 +0000
Subject: [PATCH 09/51] fix: store all non-symmetric coefficients of the input

Eigen's value() is the coefficient of a 1x1 expression, not the content of the
optional, so that writing inputs with lasym = true to JSON or HDF5 failed.
---
 .../cpp/vmecpp/common/vmec_indata/vmec_indata.cc     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index cd3a0e9..79f60f4 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -312,8 +312,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(raxis_c, "/indata/raxis_c", file);
   WriteH5Dataset(zaxis_s, "/indata/zaxis_s", file);
   if (lasym) {
-    WriteH5Dataset(raxis_s->value(), "/indata/raxis_s", file);
-    WriteH5Dataset(zaxis_c->value(), "/indata/zaxis_c", file);
+    WriteH5Dataset(*raxis_s, "/indata/raxis_s", file);
+    WriteH5Dataset(*zaxis_c, "/indata/zaxis_c", file);
   }
 
   // 2D matrices
@@ -321,8 +321,8 @@ absl::Status VmecINDATA::WriteTo(H5::H5File& file) const {
   WriteH5Dataset(rbc, "/indata/rbc", file);
   WriteH5Dataset(zbs, "/indata/zbs", file);
   if (lasym) {
-    WriteH5Dataset(rbs->value(), "/indata/rbs", file);
-    WriteH5Dataset(zbc->value(), "/indata/zbc", file);
+    WriteH5Dataset(*rbs, "/indata/rbs", file);
+    WriteH5Dataset(*zbc, "/indata/zbc", file);
   }
 
   return absl::OkStatus();
@@ -1200,8 +1200,8 @@ absl::StatusOr<std::string> VmecINDATA::ToJson() const {
   output["raxis_c"] = raxis_c;
   output["zaxis_s"] = zaxis_s;
   if (lasym) {
-    output["raxis_s"] = raxis_s->value();
-    output["zaxis_c"] = zaxis_c->value();
+    output["raxis_s"] = *raxis_s;
+    output["zaxis_c"] = *zaxis_c;
   }
 
   // (Initial Guess for) Boundary Geometry
-- 
2.43.0


From 27e880094863fae7f38ad96b6216e89f140e328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:58 +0000
Subject: [PATCH 10/51] fix: reject malformed input documents instead of
 failing while reading them

Invalid JSON, mpol or ntor out of range, missing non-symmetric axis
coefficients with lasym = true and boundary coefficients with negative m lead
to uncaught exceptions or out-of-bounds writes.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc  | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 79f60f4..482b67d 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -487,7 +487,11 @@ absl::Status VmecINDATA::LoadInto(VmecINDATA& m_indata, H5::H5File& from_file) {
 
 absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     const std::string& indata_json) {
-  json j = json::parse(indata_json);
+  json j = json::parse(indata_json, /*cb=*/nullptr, /*allow_exceptions=*/false);
+
+  if (j.is_discarded()) {
+    return absl::InvalidArgumentError("input is not valid JSON");
+  }
 
   if (!j.is_object()) {
     return absl::InvalidArgumentError("root JSON element is not an object");
@@ -563,6 +567,14 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.nzeta = maybe_nzeta->value();
   }
 
+  // needed to size the arrays below; the other entries are checked at the end
+  if (vmec_indata.mpol < 2 || vmec_indata.ntor < 0) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'mpol' and 'ntor' need to be >= 2 and >= 0, but are "
+        "%d and %d\n",
+        vmec_indata.mpol, vmec_indata.ntor));
+  }
+
   // -----------------------------------------------
 
   auto maybe_ns_array = JsonReadVectorInt(j, "ns_array");
@@ -943,6 +955,9 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
   }
 
   if (vmec_indata.lasym) {
+    vmec_indata.raxis_s.emplace().setZero(expected_axis_size);
+    vmec_indata.zaxis_c.emplace().setZero(expected_axis_size);
+
     auto maybe_raxis_s = JsonReadVectorDouble(j, "raxis_s");
     if (!maybe_raxis_s.ok()) {
       return maybe_raxis_s.status();
@@ -982,6 +997,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.rbc.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_rbc->value();
     for (const BoundaryCoefficient& entry : entries) {
+      if (entry.m < 0) {
+        return absl::InvalidArgumentError(
+            absl::StrFormat("rbc entry with negative m = %d", entry.m));
+      }
       if (entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring rbc entry with m = %d, since m is larger than (mpol - 1) "
@@ -1012,6 +1031,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     vmec_indata.zbs.setZero(vmec_indata.mpol, 2 * vmec_indata.ntor + 1);
     std::vector<BoundaryCoefficient> entries = maybe_zbs->value();
     for (const BoundaryCoefficient& entry : entries) {
+      if (entry.m < 0) {
+        return absl::InvalidArgumentError(
+            absl::StrFormat("zbs entry with negative m = %d", entry.m));
+      }
       if (entry.m > vmec_indata.mpol - 1) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring zbs entry with m = %d, since m is larger than (mpol - 1) "
@@ -1049,6 +1072,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_rbs->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_rbs->value();
       for (const BoundaryCoefficient& entry : entries) {
+        if (entry.m < 0) {
+          return absl::InvalidArgumentError(
+              absl::StrFormat("rbs entry with negative m = %d", entry.m));
+        }
         if (entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring rbs entry with m = %d, since m is larger than (mpol - "
@@ -1079,6 +1106,10 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
     if (maybe_zbc->has_value()) {
       std::vector<BoundaryCoefficient> entries = maybe_zbc->value();
       for (const BoundaryCoefficient& entry : entries) {
+        if (entry.m < 0) {
+          return absl::InvalidArgumentError(
+              absl::StrFormat("zbc entry with negative m = %d", entry.m));
+        }
         if (entry.m > vmec_indata.mpol - 1) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring zbc entry with m = %d, since m is larger than (mpol - "
-- 
2.43.0


From 6d0bd7a05add9c42b4fa2b2a71c430ce34fb6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:58 +0000
Subject: [PATCH 11/51] fix: check sizes before the consistency check of the
 input uses them

Array lengths other than ns_array's were read out of bounds, and missing
non-symmetric arrays were dereferenced.
---
 .../vmecpp/common/vmec_indata/vmec_indata.cc    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 482b67d..449b930 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1351,6 +1351,16 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
                         vmec_indata.ns_array.size()));
   }
 
+  // ftol_array and niter_array need one entry per multigrid step
+  if (vmec_indata.ftol_array.size() < vmec_indata.ns_array.size() ||
+      vmec_indata.niter_array.size() < vmec_indata.ns_array.size()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "input variables 'ftol_array' and 'niter_array' need to have an entry "
+        "for every entry of 'ns_array' (%ld), but sizes are %ld and %ld\n",
+        vmec_indata.ns_array.size(), vmec_indata.ftol_array.size(),
+        vmec_indata.niter_array.size()));
+  }
+
   // ftol_array
   for (Eigen::VectorXi::Index idx = 0; idx < vmec_indata.ns_array.size();
        ++idx) {
@@ -1554,6 +1564,13 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
   }
 
   if (vmec_indata.lasym) {
+    // when lasym == true, all of these arrays need to be set
+    if (!vmec_indata.raxis_s.has_value() || !vmec_indata.zaxis_c.has_value() ||
+        !vmec_indata.rbs.has_value() || !vmec_indata.zbc.has_value()) {
+      return absl::InvalidArgumentError(
+          "input variables 'raxis_s', 'zaxis_c', 'rbs' and 'zbc' need to be set "
+          "when 'lasym' is true.");
+    }
     // raxis_s
     if (vmec_indata.raxis_s->size() != expected_axis_size) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 7669a431622487fab0eae3cf70507a025eed5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:57 +0000
Subject: [PATCH 12/51] fix: refuse Fourier coefficient arrays that do not fit
 mpol and ntor

Assigning them to the native input broadcasts arrays of length one, so that
e.g. raising ntor of an axisymmetric input repeated its coefficients for all n.
---
 src/vmecpp/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 409569e..8f4581d 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -757,7 +757,16 @@ class VmecInput(BaseModelWithNumpy):
                         "Either set lasym=True or remove the asymmetric field."
                     )
                     raise ValueError(msg)
-                getattr(cpp_indata, attr)[:] = value
+                target = getattr(cpp_indata, attr)
+                # numpy would broadcast e.g. the coefficients of n=0 to all n
+                if np.shape(value) != target.shape:
+                    msg = (
+                        f"Field {attr} has shape {np.shape(value)}, but "
+                        f"{target.shape} is needed for mpol={self.mpol} and "
+                        f"ntor={self.ntor}"
+                    )
+                    raise ValueError(msg)
+                target[:] = value
 
         return cpp_indata
 
-- 
2.43.0


From 4e88ca8fade629fe0ba146fd70cf177203210524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:04 +0000
Subject: [PATCH 13/51] fix: drop the non-symmetric coefficients of a re-used
 input object when loading a symmetric input

VmecINDATA::LoadInto left raxis_s, zaxis_c, rbs and zbc of the receiving
object in place when the file holds a stellarator-symmetric input.
---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 449b930..45da5cd 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -423,6 +423,12 @@ absl::Status VmecINDATA::LoadInto(VmecINDATA& m_indata, H5::H5File& from_file) {
   if (m_indata.lasym) {
     ReadH5Dataset(m_indata.raxis_s.emplace(), "/indata/raxis_s", from_file);
     ReadH5Dataset(m_indata.zaxis_c.emplace(), "/indata/zaxis_c", from_file);
+  } else {
+    // do not keep what a re-used object held before
+    m_indata.raxis_s.reset();
+    m_indata.zaxis_c.reset();
+    m_indata.rbs.reset();
+    m_indata.zbc.reset();
   }
 
   // 2D matrices (represented as 1D std::vectors)
-- 
2.43.0


From 174998665c41a3e9b68d619a4aa4017126dc7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:36 +0000
Subject: [PATCH 14/51] fix: check the consistency of the input before setting
 up a run from it

Vmec::FromIndata constructed the basis tables and the boundary (and, through
the Python bindings, the whole forward model) from inputs that only Vmec::run
would have refused, reading and writing out of bounds.
---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 27067a2..80fe0db 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -147,6 +147,14 @@ absl::StatusOr<std::unique_ptr<Vmec>> Vmec::FromIndata(
     const makegrid::MagneticFieldResponseTable* magnetic_response_table,
     std::optional<int> max_threads, OutputMode verbose,
     InterruptCallback interrupt_callback) {
+  // The constructor allocates and fills arrays according to the input, hence
+  // check it first.
+  const absl::Status is_indata_consistent =
+      IsConsistent(indata, /*enable_info_messages=*/false);
+  if (!is_indata_consistent.ok()) {
+    return is_indata_consistent;
+  }
+
   auto v = std::make_unique<Vmec>(indata, max_threads, verbose,
                                   std::move(interrupt_callback));
 
-- 
2.43.0


From a7e9c1a70fa115db612881eecdeb1bba51cb29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:31 +0000
Subject: [PATCH 15/51] fix: refuse profile parameterizations that are not
 supported for a profile

An unknown, inapplicable or unimplemented pmass_type, piota_type or pcurr_type
was replaced by a profile that is zero everywhere.
---
 .../cpp/vmecpp/vmec/pybind11/pybind_vmec.cc   |  4 +++
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       | 33 +++++++++++++++++++
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h        |  5 +++
 3 files changed, 42 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
index b011b5b..8aceefc 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/pybind11/pybind_vmec.cc
@@ -205,6 +205,10 @@ class VmecModel {
     double delt0 = v.indata_.delt;
     v.InitializeRadial(vmecpp::VmecCheckpoint::NONE, INT_MAX, ns,
                        /*ns_old=*/0, delt0, initial_state);
+    const absl::Status profiles_are_supported = v.CheckInputProfiles();
+    if (!profiles_are_supported.ok()) {
+      throw std::runtime_error(std::string(profiles_are_supported.message()));
+    }
     return model;
   }
 
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 80fe0db..376d1e5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -362,6 +362,11 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
         return true;
       }
 
+      const absl::Status profiles_are_supported = CheckInputProfiles();
+      if (!profiles_are_supported.ok()) {
+        return profiles_are_supported;
+      }
+
       // *HERE* is the *ACTUAL* call to the equilibrium solver !
       const absl::StatusOr<bool> reached_checkpoint =
           SolveEquilibrium(checkpoint, iterations_before_checkpointing);
@@ -779,6 +784,34 @@ bool Vmec::InitializeRadial(
 // This is the amalgamation of the `1000` and `20` GOTOs in `eqsolve` in Fortran
 // VMEC. It is responsible for re-trying with an improved axis guess or
 // resetting the time step.
+absl::Status Vmec::CheckInputProfiles() const {
+  const auto check = [](const char* name, const std::string& type,
+                        ProfileParameterization parameterization) {
+    switch (parameterization) {
+      case ProfileParameterization::INVALID_PARAM:
+      case ProfileParameterization::SUM_COSSQ_S:
+      case ProfileParameterization::SUM_COSSQ_SQRTS:
+      case ProfileParameterization::SUM_COSSQ_S_FREE:
+        return absl::InvalidArgumentError(absl::StrFormat(
+            "input variable '%s' requests the profile parameterization '%s', "
+            "which is not supported for this profile",
+            name, type));
+      default:
+        return absl::OkStatus();
+    }
+  };
+
+  absl::Status status =
+      check("pmass_type", indata_.pmass_type, p_[0]->pmassType);
+  if (status.ok() && indata_.ncurr == 0) {
+    status = check("piota_type", indata_.piota_type, p_[0]->piotaType);
+  }
+  if (status.ok() && indata_.ncurr == 1) {
+    status = check("pcurr_type", indata_.pcurr_type, p_[0]->pcurrType);
+  }
+  return status;
+}
+
 absl::StatusOr<bool> Vmec::SolveEquilibrium(
     VmecCheckpoint checkpoint, int iterations_before_checkpointing) {
   // Table header output is now handled by logger_.BeginStage() in run().
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
index 467b94d..b4d06ee 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.h
@@ -139,6 +139,11 @@ class Vmec {
       const std::optional<HotRestartState>& initial_state = std::nullopt,
       std::optional<MultigridInterpolationScheme> interpolation_scheme =
           std::nullopt);
+
+  // Check that the parameterizations of the profiles used in the run are
+  // supported. Call this after InitializeRadial.
+  absl::Status CheckInputProfiles() const;
+
   absl::StatusOr<bool> SolveEquilibrium(VmecCheckpoint checkpoint,
                                         int maximum_iterations);
   void RestartIteration(double& m_delt0r, int thread_id);
-- 
2.43.0


From 63f02322fb1fe13aec7643ff101bbb339f20e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:49 +0000
Subject: [PATCH 16/51] fix: read inputs whose coefficients are all zero from
 JSON

VmecInput wrote rbc, zbs, rbs or zbc that are zero everywhere as an empty list
(e.g. VmecInput() itself, or a symmetric shape with lasym = true), which
model_validate_json then refused as an array of the wrong rank.
---
 src/vmecpp/_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/_util.py b/src/vmecpp/_util.py
index 9eda13b..425a49d 100644
--- a/src/vmecpp/_util.py
+++ b/src/vmecpp/_util.py
@@ -409,7 +409,10 @@ def sparse_to_dense_coefficients_implicit(
     (mpol, 2*ntor+1) shape from the maximum mode numbers OR return the original array if
     the input representation is already dense."""
     if isinstance(maybe_sparse_list, np.ndarray):
-        return maybe_sparse_list
+        if maybe_sparse_list.shape != (0,):
+            return maybe_sparse_list
+        # an empty list (all coefficients are zero) that was made an array already
+        maybe_sparse_list = []
 
     mpol = 0
     ntor = 0
-- 
2.43.0


From c0d31f08cba8362e26d8226f1e9e234d7622b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:25 +0000
Subject: [PATCH 17/51] fix: accept the members of FreeBoundaryMethod and
 IterationStyle in VmecInput

str() of such a member is e.g. 'FreeBoundaryMethod.NESTOR', which is none of the
values, so that VmecInput(**fields) and VmecInput.model_validate(x.model_dump())
refused valid inputs.
---
 src/vmecpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 8f4581d..e40d862 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -172,7 +172,7 @@ def _validate_free_boundary_method(
     """Convert various representations to FreeBoundaryMethod."""
     if isinstance(value, _vmecpp.FreeBoundaryMethod):
         return FreeBoundaryMethod(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return FreeBoundaryMethod(str(value))
+    return FreeBoundaryMethod(value)
 
 
 def _validate_iteration_style(
@@ -181,7 +181,7 @@ def _validate_iteration_style(
     """Convert various representations to IterationStyle."""
     if isinstance(value, _vmecpp.IterationStyle):
         return IterationStyle(value.name.lower())  # pyright: ignore[reportAttributeAccessIssue]
-    return IterationStyle(str(value))
+    return IterationStyle(value)
 
 
 # This is a pure Python equivalent of VmecINDATAPyWrapper.
-- 
2.43.0


From 5e83318106e8659430e0787800c8ac72274f907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:03 +0000
Subject: [PATCH 18/51] fix: VmecWOut.reason of converged runs

ier_flag is 0 for a converged run as well as for one that used up its
iterations; reason reported both as 'convergence was not reached'.
---
 src/vmecpp/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index e40d862..8ea6207 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -851,6 +851,9 @@ class VmecWOut(BaseModelWithNumpy):
 
     @property
     def reason(self) -> str:
+        # The status of a converged run (11) is stored as 0 in ier_flag.
+        if self.ier_flag == 0 and max(self.fsqr, self.fsqz, self.fsql) <= self.ftolv:
+            return "ftolv termination condition satisfied"
         return {
             0: "no fatal error but convergence was not reached",
             1: "initially bad Jacobian",
-- 
2.43.0


From db32bc75a478b23436d40dfb2d3cad84a206499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:45 +0000
Subject: [PATCH 19/51] fix: initialise the quantities that best-effort output
 reads before the first completed step

---
 .../common/flow_control/flow_control.cc       |  1 +
 .../vmec/radial_profiles/radial_profiles.cc   | 20 +++++++++----------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
index 70a0130..82fb052 100644
--- a/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
+++ b/src/vmecpp/cpp/vmecpp/common/flow_control/flow_control.cc
@@ -56,6 +56,7 @@ FlowControl::FlowControl(bool lfreeb, double delt, int num_grids,
   // INITIALIZE PARAMETERS
   fsqr = 1.0;
   fsqz = 1.0;
+  fsql = 1.0;
   ftolv = fsqr;
   ijacob = 0;
   restart_reason = RestartReason::NO_RESTART;
diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 281dca4..8363fe5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -251,16 +251,16 @@ RadialProfiles::RadialProfiles(const RadialPartitioning* r,
 
   // ---------------------------------
 
-  dVdsH.resize(r_.nsMaxH - r_.nsMinH);
-  presH.resize(r_.nsMaxH - r_.nsMinH);
-  bucoH.resize(r_.nsMaxH - r_.nsMinH);
-  bvcoH.resize(r_.nsMaxH - r_.nsMinH);
-
-  jcuruF.resize(r_.nsMaxFi - r_.nsMinFi);
-  jcurvF.resize(r_.nsMaxFi - r_.nsMinFi);
-  presgradF.resize(r_.nsMaxFi - r_.nsMinFi);
-  dVdsF.resize(r_.nsMaxFi - r_.nsMinFi);
-  equiF.resize(r_.nsMaxFi - r_.nsMinFi);
+  dVdsH.setZero(r_.nsMaxH - r_.nsMinH);
+  presH.setZero(r_.nsMaxH - r_.nsMinH);
+  bucoH.setZero(r_.nsMaxH - r_.nsMinH);
+  bvcoH.setZero(r_.nsMaxH - r_.nsMinH);
+
+  jcuruF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  jcurvF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  presgradF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  dVdsF.setZero(r_.nsMaxFi - r_.nsMinFi);
+  equiF.setZero(r_.nsMaxFi - r_.nsMinFi);
 
   spectral_width.resize(r_.nsMaxF1 - r_.nsMinF1);
   spectral_width.setZero();
-- 
2.43.0


From e357f8a3aaf63aea63dbe2cbf16ed50952df8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:53 +0000
Subject: [PATCH 20/51] fix: hot restart of equilibria without stellarator
 symmetry

---
 .../vmec/fourier_geometry/fourier_geometry.cc | 80 +++++++++++++++++++
 .../vmec/fourier_geometry/fourier_geometry.h  |  7 +-
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc       |  8 +-
 3 files changed, 91 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
index 02c8ebf..d424500 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.cc
@@ -174,6 +174,9 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
                                     const RowMatrixXd& rmnc,
                                     const RowMatrixXd& zmns,
                                     const RowMatrixXd& lmns_full,
+                                    const RowMatrixXd& rmns,
+                                    const RowMatrixXd& zmnc,
+                                    const RowMatrixXd& lmnc_full,
                                     const RadialProfiles& p,
                                     const VmecConstants& constants,
                                     const Boundaries* b) {
@@ -211,6 +214,37 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym) {
+      const Eigen::VectorXd rmns_col = rmns.col(jF);
+      const std::vector<double> rmns_col_vector(
+          rmns_col.data(), rmns_col.data() + rmns_col.size());
+      std::vector<double> rmnsc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> rmncs_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.sin_to_sc_cs(rmns_col_vector, rmnsc_at_jF, rmncs_at_jF, s_.ntor,
+                      s_.mpol);
+
+      const Eigen::VectorXd zmnc_col = zmnc.col(jF);
+      const std::vector<double> zmnc_col_vector(
+          zmnc_col.data(), zmnc_col.data() + zmnc_col.size());
+      std::vector<double> zmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> zmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(zmnc_col_vector, zmncc_at_jF, zmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          rmnsc[idx_jmn] = rmnsc_at_jF[idx_mn];
+          zmncc[idx_jmn] = zmncc_at_jF[idx_mn];
+          if (s_.lthreed) {
+            rmncs[idx_jmn] = rmncs_at_jF[idx_mn];
+            zmnss[idx_jmn] = zmnss_at_jF[idx_mn];
+          }
+        }
+      }
+    }
   }
 
   // This loop always need to go over the full radial range
@@ -242,6 +276,29 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
         }
       }
     }
+
+    if (s_.lasym) {
+      const Eigen::VectorXd lmnc_col = lmnc_full.col(jF);
+      const std::vector<double> lmnc_col_vector(
+          lmnc_col.data(), lmnc_col.data() + lmnc_col.size());
+      std::vector<double> lmncc_at_jF(s_.mpol * (s_.ntor + 1));
+      std::vector<double> lmnss_at_jF(s_.mpol * (s_.ntor + 1));
+      fb.cos_to_cc_ss(lmnc_col_vector, lmncc_at_jF, lmnss_at_jF, s_.ntor,
+                      s_.mpol);
+
+      const double lambda_unscaling =
+          constants.lamscale / p.phipF[jF - r_.nsMinF1];
+      for (int m = 0; m < s_.mpol; ++m) {
+        for (int n = 0; n < s_.ntor + 1; ++n) {
+          const int idx_mn = m * (s_.ntor + 1) + n;
+          const int idx_jmn = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
+          lmncc[idx_jmn] = lmncc_at_jF[idx_mn] / lambda_unscaling;
+          if (s_.lthreed) {
+            lmnss[idx_jmn] = lmnss_at_jF[idx_mn] / lambda_unscaling;
+          }
+        }
+      }
+    }
   }
 
   // boundary from b, if present
@@ -264,6 +321,20 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
       std::copy(b->zbcs.begin(), b->zbcs.begin() + mnsize, zmncs_begin);
     }
 
+    if (s_.lasym) {
+      const int offset = (jF - nsMin_) * mnsize;
+      std::copy(b->rbsc.begin(), b->rbsc.begin() + mnsize,
+                rmnsc.begin() + offset);
+      std::copy(b->zbcc.begin(), b->zbcc.begin() + mnsize,
+                zmncc.begin() + offset);
+      if (s_.lthreed) {
+        std::copy(b->rbcs.begin(), b->rbcs.begin() + mnsize,
+                  rmncs.begin() + offset);
+        std::copy(b->zbss.begin(), b->zbss.begin() + mnsize,
+                  zmnss.begin() + offset);
+      }
+    }
+
     for (int m = 0; m < s_.mpol; ++m) {
       for (int n = 0; n < s_.ntor + 1; ++n) {
         int idx_fc = ((jF - nsMin_) * s_.mpol + m) * (s_.ntor + 1) + n;
@@ -277,6 +348,15 @@ void FourierGeometry::InitFromState(const FourierBasisFastPoloidal& fb,
           rmnss[idx_fc] *= basis_norm;
           zmncs[idx_fc] *= basis_norm;
         }
+
+        if (s_.lasym) {
+          rmnsc[idx_fc] *= basis_norm;
+          zmncc[idx_fc] *= basis_norm;
+          if (s_.lthreed) {
+            rmncs[idx_fc] *= basis_norm;
+            zmnss[idx_fc] *= basis_norm;
+          }
+        }
       }
     }
   }
diff --git a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
index fa65a02..1ced3a6 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
+++ b/src/vmecpp/cpp/vmecpp/vmec/fourier_geometry/fourier_geometry.h
@@ -33,10 +33,13 @@ class FourierGeometry : public FourierCoeffs {
   // instead of from the Fourier coefficient matrices.
   // This latter use case applies to fixed-boundary hot-restart operation of
   // VMEC++.
+  // The non-stellarator-symmetric coefficients (rmns, zmnc, lmnc_full) are only
+  // used if lasym is true.
   void InitFromState(const FourierBasisFastPoloidal &fb,
                      const RowMatrixXd &rmnc, const RowMatrixXd &zmns,
-                     const RowMatrixXd &lmns_full, const RadialProfiles &p,
-                     const VmecConstants &constants,
+                     const RowMatrixXd &lmns_full, const RowMatrixXd &rmns,
+                     const RowMatrixXd &zmnc, const RowMatrixXd &lmnc_full,
+                     const RadialProfiles &p, const VmecConstants &constants,
                      const Boundaries *b = nullptr);
 
   void extrapolateTowardsAxis();
diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 376d1e5..2f94972 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -726,13 +726,17 @@ bool Vmec::InitializeRadial(
           // free-boundary hot restart: use all flux surfaces from initial state
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_);
+              initial_state->wout.lmns_full, initial_state->wout.rmns,
+              initial_state->wout.zmnc, initial_state->wout.lmnc_full,
+              *p_[thread_id], constants_);
         } else {
           // fixed-boundary hot restart: use inner flux surfaces from initial
           // state, and LCFS geometry from Boundaries (from INDATA)
           decomposed_x_[thread_id]->InitFromState(
               t_, initial_state->wout.rmnc, initial_state->wout.zmns,
-              initial_state->wout.lmns_full, *p_[thread_id], constants_, &b_);
+              initial_state->wout.lmns_full, initial_state->wout.rmns,
+              initial_state->wout.zmnc, initial_state->wout.lmnc_full,
+              *p_[thread_id], constants_, &b_);
         }
       }
     } else {
-- 
2.43.0


From ea11581e0dc929230617ccf730b93741e2385f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:00 +0000
Subject: [PATCH 21/51] fix: refuse hot restart states whose coefficients do
 not have the requested size

---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 2f94972..732f1f5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -83,12 +83,32 @@ absl::Status CheckInitialState(const vmecpp::HotRestartState& initial_state,
   }
 
   // check for matching `ns`
-  if (initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
-      indata.ns_array[0]) {
+  if (initial_state.indata.ns_array.size() == 0 ||
+      initial_state.indata.ns_array[initial_state.indata.ns_array.size() - 1] !=
+          indata.ns_array[0]) {
     return absl::InvalidArgumentError(
         absl::StrCat(msg_start, "ns_array", msg_end));
   }
 
+  // The coefficients themselves can have another size than the input they come
+  // from asked for, e.g., if that run gave up in an earlier multi-grid stage.
+  const int mnmax =
+      (indata.ntor + 1) + (indata.mpol - 1) * (2 * indata.ntor + 1);
+  const auto has_expected_size = [&](const vmecpp::RowMatrixXd& coefficients) {
+    return coefficients.rows() == mnmax &&
+           coefficients.cols() == indata.ns_array[0];
+  };
+  const vmecpp::WOutFileContents& wout = initial_state.wout;
+  if (!has_expected_size(wout.rmnc) || !has_expected_size(wout.zmns) ||
+      !has_expected_size(wout.lmns_full) ||
+      (indata.lasym &&
+       (!has_expected_size(wout.rmns) || !has_expected_size(wout.zmnc) ||
+        !has_expected_size(wout.lmnc_full)))) {
+    return absl::InvalidArgumentError(
+        "The Fourier coefficients of the hot restart initial state do not have "
+        "the number of modes and flux surfaces that the indata asks for.");
+  }
+
   return absl::OkStatus();
 }
 }  // namespace
-- 
2.43.0


From 5e3bcebad48422c2f0176559f1b3c09b56711ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:30 +0000
Subject: [PATCH 22/51] fix: do not declare free-boundary convergence without
 force balance at the boundary after restoring a state

---
 .../vmec/ideal_mhd_model/ideal_mhd_model.cc     | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc b/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc
index bebacbd..6104b69 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc
@@ -1048,6 +1048,23 @@ absl::StatusOr<bool> IdealMhdModel::update(
 
   evalFResInvar(localFResInvar);
 
+  // `almost_converged` refers to the previous iteration. If the state was just
+  // restored (e.g. a hot-restarted state after a too large time step), it can
+  // fulfill the termination criterion although the previous iteration was far
+  // from convergence. Do not terminate in that case without having checked the
+  // force balance at the LCFS.
+  if (m_fc_.lfreeb && !includeEdgeRZForces && (iter2 - iter1) < 50 &&
+      m_fc_.fsqr <= m_fc_.ftolv && m_fc_.fsqz <= m_fc_.ftolv &&
+      m_fc_.fsql <= m_fc_.ftolv) {
+    localFResInvar.setZero();
+    m_decomposed_f.residuals(localFResInvar, /*includeEdgeRZForces=*/true);
+// protect reads of the force residuals above from writes below
+#ifdef _OPENMP
+#pragma omp barrier
+#endif  // _OPENMP
+    evalFResInvar(localFResInvar);
+  }
+
   if (checkpoint == VmecCheckpoint::INVARIANT_RESIDUALS &&
       iter2 >= iterations_before_checkpointing) {
     return true;
-- 
2.43.0


From 9ce7cc11236dd3b2f8b3e13539c25c7bf85c3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:27 +0000
Subject: [PATCH 23/51] fix: current density and Mercier terms without
 stellarator symmetry in three dimensions

---
 .../output_quantities/output_quantities.cc    | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 7e7f8ed..ff4294f 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -2064,11 +2064,11 @@ vmecpp::SymmetryDecomposedCovariantB vmecpp::DecomposeCovariantBBySymmetry(
     // bs_a(v,u) = .5*( bs(v,u) + bs(-v,-u) )     ! * COS(mu - nv)
     for (int jF = 0; jF < vmec_internal_results.num_full; ++jF) {
       for (int kl = 0; kl < vmec_internal_results.nZnT_reduced; ++kl) {
-        const int source_index = jF * s.nZnT + kl;
-
         const int k = kl / s.nThetaReduced;
         const int l = kl % s.nThetaReduced;
 
+        const int source_index = jF * s.nZnT + (k * s.nThetaEven + l);
+
         const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
         const int k_reversed = (s.nZeta - k) % s.nZeta;
         const int kl_reversed = k_reversed * s.nThetaEven + l_reversed;
@@ -2150,7 +2150,6 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
   covariant_b_derivatives.bsubsv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_full, s.nZnT);
 
-  // TODO(jons): no split into (non-)stellarator-symmetric contributions?
   covariant_b_derivatives.bsubuv =
       RowMatrixXd::Zero(m_vmec_internal_results.num_half, s.nZnT);
   covariant_b_derivatives.bsubvu =
@@ -2169,11 +2168,17 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
       m_vmec_internal_results.num_half * s.nZnT, 0.0);
   std::vector<double> bsubv_filtered_s(
       m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubvu_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
+  std::vector<double> bsubuv_s(m_vmec_internal_results.num_half * s.nZnT, 0.0);
   std::vector<double> bsubu_filtered_a;
   std::vector<double> bsubv_filtered_a;
+  std::vector<double> bsubvu_a;
+  std::vector<double> bsubuv_a;
   if (s.lasym) {
     bsubu_filtered_a.resize(m_vmec_internal_results.num_half * s.nZnT);
     bsubv_filtered_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubvu_a.resize(m_vmec_internal_results.num_half * s.nZnT);
+    bsubuv_a.resize(m_vmec_internal_results.num_half * s.nZnT);
   }
 
   // FOURIER LOW-PASS FILTER bsubs
@@ -2353,12 +2358,12 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
             const double tsinm1 = t.sinmum[idx_ml] * t.cosnv[idx_kn];
             const double tsinm2 = t.cosmum[idx_ml] * t.sinnv[idx_kn];
-            covariant_b_derivatives.bsubvu(target_index) +=
+            bsubvu_s[target_index] +=
                 tsinm1 * bsubvmn1 + tsinm2 * bsubvmn2;
 
             const double tsinn1 = t.cosmu[idx_ml] * t.sinnvn[idx_kn];
             const double tsinn2 = t.sinmu[idx_ml] * t.cosnvn[idx_kn];
-            covariant_b_derivatives.bsubuv(target_index) +=
+            bsubuv_s[target_index] +=
                 tsinn1 * bsubumn1 + tsinn2 * bsubumn2;
 
             if (s.lasym) {
@@ -2371,12 +2376,12 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
 
               const double tcosm1 = t.cosmum[idx_ml] * t.cosnv[idx_kn];
               const double tcosm2 = t.sinmum[idx_ml] * t.sinnv[idx_kn];
-              covariant_b_derivatives.bsubvu(target_index) +=
+              bsubvu_a[target_index] +=
                   tcosm1 * bsubvmn3 + tcosm2 * bsubvmn4;
 
               const double tcosn1 = t.sinmu[idx_ml] * t.sinnvn[idx_kn];
               const double tcosn2 = t.cosmu[idx_ml] * t.cosnvn[idx_kn];
-              covariant_b_derivatives.bsubuv(target_index) +=
+              bsubuv_a[target_index] +=
                   tcosn1 * bsubumn3 + tcosn2 * bsubumn4;
             }  // lasym
           }  // l
@@ -2404,6 +2409,11 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
               bsubu_filtered_s[source_index] + bsubu_filtered_a[source_index];
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index] + bsubv_filtered_a[source_index];
+
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_s[source_index] + bsubvu_a[source_index];
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_s[source_index] + bsubuv_a[source_index];
         }  // l
         for (int l = s.nThetaReduced; l < s.nThetaEven; ++l) {
           const int l_reversed = (s.nThetaEven - l) % s.nThetaEven;
@@ -2417,6 +2427,12 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
           m_vmec_internal_results.bsubv(target_index) =
               bsubv_filtered_s[source_index_reversed] -
               bsubv_filtered_a[source_index_reversed];
+
+          // angular derivatives have the opposite parity
+          covariant_b_derivatives.bsubvu(target_index) =
+              bsubvu_a[source_index_reversed] - bsubvu_s[source_index_reversed];
+          covariant_b_derivatives.bsubuv(target_index) =
+              bsubuv_a[source_index_reversed] - bsubuv_s[source_index_reversed];
         }  // l
       }  // k
     }  // jH
@@ -2427,6 +2443,8 @@ vmecpp::CovariantBDerivatives vmecpp::LowPassFilterCovariantB(
         const int idx_kl = jH * s.nZnT + kl;
         m_vmec_internal_results.bsubu(idx_kl) = bsubu_filtered_s[idx_kl];
         m_vmec_internal_results.bsubv(idx_kl) = bsubv_filtered_s[idx_kl];
+        covariant_b_derivatives.bsubvu(idx_kl) = bsubvu_s[idx_kl];
+        covariant_b_derivatives.bsubuv(idx_kl) = bsubuv_s[idx_kl];
       }  // kl
     }  // jH
   }
-- 
2.43.0


From ec285f8d03457b705094c8d313536485cb1bae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:53 +0000
Subject: [PATCH 24/51] fix: waist of plasmas without stellarator symmetry

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index ff4294f..acb3d9d 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3923,7 +3923,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
                               vmec_internal_results.r_o(index_outboard);
 
     const int index_inboard =
-        ((fc.ns - 1) * s.nZeta + k) * s.nThetaReduced + (s.nThetaReduced - 1);
+        ((fc.ns - 1) * s.nZeta + k) * s.nThetaEff + (s.nThetaReduced - 1);
     const double r_inboard = vmec_internal_results.r_e(index_inboard) +
                              vmec_internal_results.r_o(index_inboard);
 
-- 
2.43.0


From eb3e6ef4fbcd2b4097cff181accf5550e3bb5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 25/51] fix: enclosed toroidal flux of non-uniform flux
 profiles

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index acb3d9d..b074673 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -1890,7 +1890,7 @@ void vmecpp::RecomputeToroidalFlux(
   m_vmec_internal_results.phiF[0] = 0.0;
   for (int jF = 1; jF < fc.ns; ++jF) {
     m_vmec_internal_results.phiF[jF] = m_vmec_internal_results.phiF[jF - 1] +
-                                       m_vmec_internal_results.phipF[jF - 1];
+                                       m_vmec_internal_results.phipH[jF - 1];
   }  // jF
 
   // now apply scaling
-- 
2.43.0


From af503632207ccedfbb001615ed3e84be50f6ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 26/51] fix: plasma height when the poloidal angle starts on
 the inboard side

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index b074673..57d50d0 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3878,7 +3878,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
         vmec_internal_results.z_e(lcfs_kl) + vmec_internal_results.z_o(lcfs_kl);
     result.rmax_surf = std::max(result.rmax_surf, r);
     result.rmin_surf = std::min(result.rmin_surf, r);
-    result.zmax_surf = std::max(result.zmax_surf, z);
+    result.zmax_surf = std::max(result.zmax_surf, std::abs(z));
   }  // kl
 
   result.bmin = RowMatrixXd::Ones(fc.ns - 1, s.nThetaReduced) * DBL_MAX;
@@ -3935,7 +3935,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
       const double z = vmec_internal_results.z_e(index_zeta) +
                        vmec_internal_results.z_o(index_zeta);
       result.height[symmetry_plane_index] =
-          std::max(result.height[symmetry_plane_index], z);
+          std::max(result.height[symmetry_plane_index], std::abs(z));
     }  // l
     result.height[symmetry_plane_index] *= 2.0;
 
-- 
2.43.0


From ad534125628a4296ad48eba957f79166da020dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 27/51] fix: spectra of the highest toroidal mode on grids with
 an odd number of toroidal points

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 57d50d0..46c3916 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4581,7 +4581,8 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   for (int kn = 0; kn < (s.nnyq2 + 1) * s.nZeta; ++kn) {
     cosnv[kn] = t.cosnv[kn];
   }
-  if (s.nnyq != 0) {
+  // For odd nZeta, n = nnyq is below the Nyquist frequency.
+  if (s.nnyq != 0 && s.nZeta % 2 == 0) {
     for (int k = 0; k < s.nZeta; ++k) {
       // FIXME(eguiraud) slow loop
       const int kn = k * (s.nnyq2 + 1) + s.nnyq;
-- 
2.43.0


From de2fa3fd49983477bb6064edf78b3293b4e99179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 28/51] fix: parallel tridiagonal solve when a system starts or
 ends at the border between two workers

---
 src/vmecpp/cpp/vmecpp/common/util/util.cc | 114 ++++++++++++----------
 1 file changed, 65 insertions(+), 49 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/util/util.cc b/src/vmecpp/cpp/vmecpp/common/util/util.cc
index 37cb90f..b7705ed 100644
--- a/src/vmecpp/cpp/vmecpp/common/util/util.cc
+++ b/src/vmecpp/cpp/vmecpp/common/util/util.cc
@@ -117,47 +117,59 @@ void TridiagonalSolveOpenMP(
 #pragma omp barrier
 #endif  // _OPENMP
 
-  if (myid == 0) {
-    // this is the rank that has jMin;
-    // fill in dummy values into unused entries
-    for (int j = 0; j < nsMaxF; ++j) {
-      for (int mn = 0; mn < mnmax; ++mn) {
-        if (j < jMin[mn]) {  // continue; }
-          int idx_mn = (j - nsMinF) * mnmax + mn;
-          m_ar[idx_mn] = 0.0;
-          m_az[idx_mn] = 0.0;
-          m_dr[idx_mn] = 1.0;
-          m_dz[idx_mn] = 1.0;
-          m_br[idx_mn] = 0.0;
-          m_bz[idx_mn] = 0.0;
-        }
-      }  // mn
-    }  // j
+  // fill in dummy values into unused entries
+  for (int j = nsMinF; j < nsMaxF; ++j) {
+    for (int mn = 0; mn < mnmax; ++mn) {
+      if (j < jMin[mn]) {  // continue; }
+        int idx_mn = (j - nsMinF) * mnmax + mn;
+        m_ar[idx_mn] = 0.0;
+        m_az[idx_mn] = 0.0;
+        m_dr[idx_mn] = 1.0;
+        m_dz[idx_mn] = 1.0;
+        m_br[idx_mn] = 0.0;
+        m_bz[idx_mn] = 0.0;
+        for (int k = 0; k < nRHS; ++k) {
+          m_cr[k][idx_mn] = 0.0;
+          m_cz[k][idx_mn] = 0.0;
+        }  // k
+      }
+    }  // mn
+  }  // j
+
+  // in the rank that has jMin,
+  // compute a[jMin] /= d[jMin] and c[*][jMin] /= d[jMin]
+  for (int mn = 0; mn < mnmax; ++mn) {
+    if (jMin[mn] < nsMinF || jMin[mn] >= nsMaxF) {
+      continue;
+    }
+    int idx_mn = (jMin[mn] - nsMinF) * mnmax + mn;
+    // Division by zero may produce NaN, this is handled elsewhere.
+    m_ar[idx_mn] /= m_dr[idx_mn];
+    m_az[idx_mn] /= m_dz[idx_mn];
     for (int k = 0; k < nRHS; ++k) {
-      for (int j = 0; j < nsMaxF; ++j) {
-        for (int mn = 0; mn < mnmax; ++mn) {
-          if (j < jMin[mn]) {  // continue; }
-            int idx_mn = (j - nsMinF) * mnmax + mn;
-            m_cr[k][idx_mn] = 0.0;
-            m_cz[k][idx_mn] = 0.0;
-          }
-        }  // mn
-      }  // j
+      m_cr[k][idx_mn] /= m_dr[idx_mn];
+      m_cz[k][idx_mn] /= m_dz[idx_mn];
     }  // k
+  }  // mn
 
-    // check that d[jMin] != 0 and if so,
-    // compute a[jMin] /= d[jMin] and c[*][jMin] /= d[jMin]
-    for (int mn = 0; mn < mnmax; ++mn) {
-      int idx_mn = (jMin[mn] - nsMinF) * mnmax + mn;
-      // Division by zero may produce NaN, this is handled elsewhere.
-      m_ar[idx_mn] /= m_dr[idx_mn];
-      m_az[idx_mn] /= m_dz[idx_mn];
-      for (int k = 0; k < nRHS; ++k) {
-        m_cr[k][idx_mn] /= m_dr[idx_mn];
-        m_cz[k][idx_mn] /= m_dz[idx_mn];
-      }  // k
-    }  // mn
-  }  // myid == 0
+  // leave the last row of this rank for rank myid+1
+  const auto handover_to_next = [&](int mn) {
+    const int idx_mn_0 = (nsMaxF - 1 - nsMinF) * mnmax + mn;
+    m_handover_ar[mn] = m_ar[idx_mn_0];
+    m_handover_az[mn] = m_az[idx_mn_0];
+    for (int k = 0; k < nRHS; ++k) {
+      m_handover_cr[k][mn] = m_cr[k][idx_mn_0];
+      m_handover_cz[k][mn] = m_cz[k][idx_mn_0];
+    }  // k
+  };
+
+  // leave the first row of this rank for rank myid-1
+  const auto handover_to_previous = [&](int mn) {
+    for (int k = 0; k < nRHS; ++k) {
+      m_handover_cr[k][mn] = m_cr[k][mn];
+      m_handover_cz[k][mn] = m_cz[k][mn];
+    }  // k
+  };
 
   // have each thread take the lock that blocks the next thread
   if (myid + 1 < ncpu) {
@@ -175,6 +187,10 @@ void TridiagonalSolveOpenMP(
   for (int j = nsMinF; j < std::min(jMax, nsMaxF); ++j) {
     for (int mn = 0; mn < mnmax; ++mn) {
       if (j < jMin[mn] + 1) {
+        // the first row of the system may be the last one of this rank
+        if (j == nsMaxF - 1) {
+          handover_to_next(mn);
+        }
         continue;
       }  // TODO(jons)
 
@@ -228,12 +244,7 @@ void TridiagonalSolveOpenMP(
 
       if (j == nsMaxF - 1) {
         // need to leave handover data for rank myid+1
-        m_handover_ar[mn] = m_ar[idx_mn_0];
-        m_handover_az[mn] = m_az[idx_mn_0];
-        for (int k = 0; k < nRHS; ++k) {
-          m_handover_cr[k][mn] = m_cr[k][idx_mn_0];
-          m_handover_cz[k][mn] = m_cz[k][idx_mn_0];
-        }  // k
+        handover_to_next(mn);
       }
     }  // mn
   }  // j
@@ -257,12 +268,20 @@ void TridiagonalSolveOpenMP(
 
   m_mutices[myid].lock();
 
-  for (int j = std::min(jMax - 2, nsMaxF - 1); j >= nsMinF; --j) {
+  for (int j = std::min(jMax - 1, nsMaxF - 1); j >= nsMinF; --j) {
     for (int mn = 0; mn < mnmax; ++mn) {
       if (j < jMin[mn]) {
         continue;
       }  // TODO(jons)
 
+      if (j == jMax - 1) {
+        // the last row of the system has already been solved for
+        if (j == nsMinF) {
+          handover_to_previous(mn);
+        }
+        continue;
+      }
+
       int idx_mn_p = (j + 1 - nsMinF) * mnmax + mn;  // +1
       int idx_mn_0 = (j - nsMinF) * mnmax + mn;      //  0
 
@@ -294,10 +313,7 @@ void TridiagonalSolveOpenMP(
 
       if (j == nsMinF) {
         // need to leave handover data for rank myid-1
-        for (int k = 0; k < nRHS; ++k) {
-          m_handover_cr[k][mn] = m_cr[k][idx_mn_0];
-          m_handover_cz[k][mn] = m_cz[k][idx_mn_0];
-        }  // k
+        handover_to_previous(mn);
       }
     }  // mn
   }  // j
-- 
2.43.0


From 4a913593cff79019134dc26ddbaf33a8fc959703 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 29/51] fix: coils file parser accepts malformed numbers,
 unfinished filaments and mixes up circuits of several sections

---
 .../magnetic_configuration_lib.cc             | 60 +++++++++++++------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index b4e629c..a5fd667 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -6,6 +6,7 @@
 
 #include <Eigen/Dense>
 #include <algorithm>
+#include <array>
 #include <cctype>
 #include <cstring>
 #include <fstream>
@@ -20,6 +21,7 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/strings/ascii.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "util/file_io/file_io.h"
@@ -33,12 +35,11 @@ using composed_types::OrthonormalFrameAroundAxis;
 using composed_types::Vector3d;
 
 // Read all current carriers, starting from the line below "begin filament"
-// until "end" is found or the stream ends.
+// until "end" is found or the stream ends. `m_coil_ids` holds the circuit ID of
+// every SerialCircuit that is already in `m_magnetic_configuration`.
 absl::Status ParseCurrentCarriers(
-    std::stringstream& m_makegrid_coils_ss,
+    std::stringstream& m_makegrid_coils_ss, std::vector<int>& m_coil_ids,
     MagneticConfiguration& m_magnetic_configuration) {
-  std::vector<int> coil_ids;
-
   std::vector<double> x;
   std::vector<double> y;
   std::vector<double> z;
@@ -60,6 +61,11 @@ absl::Status ParseCurrentCarriers(
       continue;
     } else if (absl::StartsWith(stripped_line, "end")) {
       // current carrier geometry ended on this line
+      if (!x.empty()) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("last filament before 'end' has ", x.size(),
+                         " points, but no closing line with six columns"));
+      }
       return absl::OkStatus();
     }
 
@@ -70,31 +76,44 @@ absl::Status ParseCurrentCarriers(
 
     if (num_line_parts == 4 || num_line_parts == 6) {
       // handle first four columns: x, y, z, w
-      x.push_back(std::stod(line_parts[0]));  // x or r
-      y.push_back(std::stod(line_parts[1]));  // y or 0.0
-      z.push_back(std::stod(line_parts[2]));  // z
-      w.push_back(std::stod(line_parts[3]));  // num_windings or 0.0 or current
-                                              // or any product of those
+      std::array<double, 4> columns;
+      for (std::size_t i = 0; i < columns.size(); ++i) {
+        if (!absl::SimpleAtod(line_parts[i], &columns[i])) {
+          return absl::InvalidArgumentError(absl::StrCat(
+              "cannot parse number '", line_parts[i], "' on line: '",
+              stripped_line, "'"));
+        }
+      }
+      x.push_back(columns[0]);  // x or r
+      y.push_back(columns[1]);  // y or 0.0
+      z.push_back(columns[2]);  // z
+      w.push_back(columns[3]);  // num_windings or 0.0 or current
+                                // or any product of those
 
       if (num_line_parts == 6) {
         // handle six columns: x, y, z, 0.0, serial_circuit_id,
         // current_carrier_name
-        int serial_circuit_id = std::stoi(line_parts[4]);
+        int serial_circuit_id = 0;
+        if (!absl::SimpleAtoi(line_parts[4], &serial_circuit_id)) {
+          return absl::InvalidArgumentError(absl::StrCat(
+              "cannot parse circuit ID '", line_parts[4], "' on line: '",
+              stripped_line, "'"));
+        }
         std::string current_carrier_name = line_parts[5];
 
         // find or create target serial circuit based on circuit ID
         std::vector<int>::iterator index_of_circuit_id =
-            std::find(coil_ids.begin(), coil_ids.end(), serial_circuit_id);
+            std::find(m_coil_ids.begin(), m_coil_ids.end(), serial_circuit_id);
         SerialCircuit* serial_circuit;
-        if (index_of_circuit_id != coil_ids.end()) {
+        if (index_of_circuit_id != m_coil_ids.end()) {
           const int serial_circuit_index =
-              static_cast<int>(index_of_circuit_id - coil_ids.begin());
+              static_cast<int>(index_of_circuit_id - m_coil_ids.begin());
           serial_circuit = m_magnetic_configuration.mutable_serial_circuits(
               serial_circuit_index);
         } else {
           serial_circuit = m_magnetic_configuration.add_serial_circuits();
           serial_circuit->set_current(1.0);
-          coil_ids.push_back(serial_circuit_id);
+          m_coil_ids.push_back(serial_circuit_id);
         }
 
         Coil* coil = serial_circuit->add_coils();
@@ -166,6 +185,7 @@ absl::Status ParseCurrentCarriers(
 absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
     const std::string& makegrid_coils) {
   MagneticConfiguration magnetic_configuration;
+  std::vector<int> coil_ids;
 
   std::stringstream makegrid_coils_ss(makegrid_coils);
   for (std::string raw_line; std::getline(makegrid_coils_ss, raw_line);
@@ -182,13 +202,19 @@ absl::StatusOr<MagneticConfiguration> ImportMagneticConfigurationFromMakegrid(
                          "but no second part was found on line '"
                       << stripped_line << "'";
         return absl::NotFoundError(error_message.str());
-      } else {
-        magnetic_configuration.set_num_field_periods(std::stoi(line_parts[1]));
       }
+      int num_field_periods = 0;
+      if (!absl::SimpleAtoi(line_parts[1], &num_field_periods)) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("cannot parse number of field periods on line '",
+                         stripped_line, "'"));
+      }
+      magnetic_configuration.set_num_field_periods(num_field_periods);
     } else if (absl::StartsWith(stripped_line, "begin filament")) {
       // expect current carrier geometry starting on next line until line "end"
       absl::Status status =
-          ParseCurrentCarriers(makegrid_coils_ss, magnetic_configuration);
+          ParseCurrentCarriers(makegrid_coils_ss, coil_ids,
+                               magnetic_configuration);
       if (status != absl::OkStatus()) {
         // If something did not work out during parsing, return an empty
         // MagneticConfiguration, since the data is likely messed up anyway.
-- 
2.43.0


From 4447fa81fd9e4f6bffc8c0e1ab82dedcdfac25f8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 30/51] fix: folding windings into circuit currents when the
 first coil has none

---
 .../magnetic_configuration_lib.cc                | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index a5fd667..12e479d 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -292,8 +292,18 @@ absl::Status NumWindingsToCircuitCurrents(
     // Fortran MAKEGRID normalizes by the first coil's num_windings even when
     // coils within a circuit have different magnitudes (e.g., a TF coil at
     // 96 turns and PF coils at -16 turns) but share the same current
+    if (num_coils == 0) {
+      continue;
+    }
+    const Coil& reference_coil = m_serial_circuit->coils(0);
+    // num_windings defaults to 1, if not provided
     const double reference_num_windings =
-        m_serial_circuit->coils(0).num_windings();
+        reference_coil.has_num_windings() ? reference_coil.num_windings() : 1.0;
+    if (reference_num_windings == 0.0) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "cannot normalize serial circuit ", idx_circuit,
+          " by the number of windings of its first coil, which is zero"));
+    }
 
     // step 1: migrate num_windings into circuit current using the reference
     const double current_times_num_windings =
@@ -307,7 +317,9 @@ absl::Status NumWindingsToCircuitCurrents(
     // output: field_scaled = sum_i(w_i/w_ref * B_i).
     for (int idx_coil = 0; idx_coil < num_coils; ++idx_coil) {
       Coil* m_coil = m_serial_circuit->mutable_coils(idx_coil);
-      m_coil->set_num_windings(m_coil->num_windings() / reference_num_windings);
+      const double num_windings =
+          m_coil->has_num_windings() ? m_coil->num_windings() : 1.0;
+      m_coil->set_num_windings(num_windings / reference_num_windings);
     }
   }
 
-- 
2.43.0


From f02b84c1cd70dd5a0a8b265845754f44934eff29 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:28:25 +0000
Subject: [PATCH 31/51] fix: report errors instead of aborting when coils
 cannot be moved or a grid parameter file cannot be read

---
 .../magnetic_configuration_lib.cc             | 21 ++++++++++++-------
 .../common/makegrid_lib/makegrid_lib.cc       |  4 +++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
index 12e479d..7979028 100644
--- a/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc
@@ -383,15 +383,22 @@ absl::Status MoveRadially(double radial_step,
             return absl::InvalidArgumentError(
                 "Cannot perform radial movement if an InfiniteStraightFilament "
                 "is present in the MagneticConfiguration");
-          case CurrentCarrier::TypeCase::kCircularFilament:
-            CHECK_OK(MoveRadially(
-                radial_step,
-                *(m_current_carrier->mutable_circular_filament())));
+          case CurrentCarrier::TypeCase::kCircularFilament: {
+            absl::Status status = MoveRadially(
+                radial_step, *(m_current_carrier->mutable_circular_filament()));
+            if (!status.ok()) {
+              return status;
+            }
             break;
-          case CurrentCarrier::TypeCase::kPolygonFilament:
-            CHECK_OK(MoveRadially(
-                radial_step, *(m_current_carrier->mutable_polygon_filament())));
+          }
+          case CurrentCarrier::TypeCase::kPolygonFilament: {
+            absl::Status status = MoveRadially(
+                radial_step, *(m_current_carrier->mutable_polygon_filament()));
+            if (!status.ok()) {
+              return status;
+            }
             break;
+          }
           case CurrentCarrier::TypeCase::kFourierFilament:
             return absl::InvalidArgumentError(
                 "Cannot perform radial movement if an FourierFilament is "
diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 8233056..1737dd2 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -274,7 +274,9 @@ absl::StatusOr<MakegridParameters> ImportMakegridParametersFromFile(
     const std::filesystem::path& makegrid_parameters_file) {
   const auto maybe_makegrid_params_json =
       file_io::ReadFile(makegrid_parameters_file);
-  CHECK_OK(maybe_makegrid_params_json);
+  if (!maybe_makegrid_params_json.ok()) {
+    return maybe_makegrid_params_json.status();
+  }
   const auto& makegrid_params_json = *maybe_makegrid_params_json;
   return ImportMakegridParametersFromJson(makegrid_params_json);
 }  // ImportMakegridParametersFromFile
-- 
2.43.0


From eec72c67bc13b19cea89adaad231c1c2e5200535 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 32/51] fix: refuse makegrid's symmetry shortcut on vertical
 grids that are not symmetric

---
 src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index 1737dd2..e29f789 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -314,6 +314,12 @@ absl::StatusOr<RowMatrix3Xd> MakeCylindricalGrid(
           "make use to stellarator symmetry in makegrid, but was num_phi=",
           num_phi));
     }
+    if (min_z != -max_z) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "vertical grid has to be symmetric about z = 0 for being able to "
+          "make use of stellarator symmetry in makegrid, but was from z_min=",
+          min_z, " to z_max=", max_z));
+    }
     num_phi_effective = num_phi / 2 + 1;
   }
 
-- 
2.43.0


From 7a9ff20ecbb3fde4aa0503dce6d102e5ef7436e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 33/51] fix: report an error instead of aborting when an mgrid
 file cannot be created

---
 .../common/makegrid_lib/makegrid_lib.cc       | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
index e29f789..8ffc031 100644
--- a/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
+++ b/src/vmecpp/cpp/vmecpp/common/makegrid_lib/makegrid_lib.cc
@@ -795,17 +795,27 @@ absl::Status WriteMakegridNetCDFFile(
 
   // number of response tables in this mgrid file
   const int n_serial_circuits = static_cast<int>(response_table_b.b_r.rows());
-  CHECK_GT(n_serial_circuits, 0)
-      << "No magnetic field cache present to be written.";
+  if (n_serial_circuits == 0) {
+    return absl::InvalidArgumentError(
+        "No magnetic field cache present to be written.");
+  }
 
   const int n_circuit_currents = static_cast<int>(circuit_currents.size());
-  CHECK_EQ(n_circuit_currents, n_serial_circuits) << absl::StrFormat(
-      "number of provided circuit currents (%d) has to equal number of serial "
-      "circuits(%d)",
-      n_circuit_currents, n_serial_circuits);
+  if (n_circuit_currents != n_serial_circuits) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "number of provided circuit currents (%d) has to equal number of "
+        "serial circuits(%d)",
+        n_circuit_currents, n_serial_circuits));
+  }
 
   int ncid = 0;
-  CHECK_EQ(nc_create(makegrid_filename.c_str(), NC_CLOBBER, &ncid), NC_NOERR);
+  const int create_status =
+      nc_create(makegrid_filename.c_str(), NC_CLOBBER, &ncid);
+  if (create_status != NC_NOERR) {
+    return absl::InternalError(absl::StrFormat("could not create '%s': %s",
+                                               makegrid_filename,
+                                               nc_strerror(create_status)));
+  }
 
   // create dimensions
   int id_dimension_stringsize = 0;
-- 
2.43.0


From c1a5b82e374642eb74e3a470c793cfa4422aac98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 34/51] fix: check grid and table sizes before using a
 tabulated magnetic field

---
 .../mgrid_provider/mgrid_provider.cc          | 49 +++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
index b1291d8..5e3affb 100644
--- a/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
+++ b/src/vmecpp/cpp/vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc
@@ -11,6 +11,7 @@
 #include <cstdio>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <vector>
 
 #include "absl/log/check.h"
@@ -28,6 +29,21 @@ using netcdf_io::NetcdfReadString;
 
 namespace {
 
+absl::Status ValidateGrid(int num_r, double min_r, double max_r, int num_z,
+                          double min_z, double max_z, int num_phi) {
+  // need at least one grid cell to interpolate in
+  // and the linear index into the grid has to fit into an int
+  if (num_r < 2 || num_z < 2 || num_phi < 1 || !(max_r > min_r) ||
+      !(max_z > min_z) ||
+      num_r > std::numeric_limits<int>::max() / num_z / num_phi) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "invalid magnetic field grid: %d points in R from %g to %g, %d points "
+        "in Z from %g to %g, %d points in phi",
+        num_r, min_r, max_r, num_z, min_z, max_z, num_phi));
+  }
+  return absl::OkStatus();
+}
+
 absl::Status ValidateFieldContributionShape(
     const std::vector<std::vector<std::vector<double> > >& field_contribution,
     const std::string& variable_name, int num_phi, int num_z, int num_r) {
@@ -173,6 +189,13 @@ absl::Status MGridProvider::LoadFile(const std::filesystem::path& filename,
 
   mgrid_mode = *mgrid_mode_or;
 
+  absl::Status grid_status =
+      ValidateGrid(numR, minR, maxR, numZ, minZ, maxZ, numPhi);
+  if (!grid_status.ok()) {
+    nc_close(ncid);
+    return with_context(grid_status);
+  }
+
   // Resize and make sure that the accumulation arrays are reset to zeros
   // if they contained previous contents from an earlier call to this routine.
   bR.setZero(numPhi * numZ * numR);
@@ -263,6 +286,32 @@ absl::Status MGridProvider::LoadFields(
         coil_currents.size(), magnetic_response_table.b_p.rows()));
   }
 
+  absl::Status grid_status = ValidateGrid(
+      mgrid_params.number_of_r_grid_points, mgrid_params.r_grid_minimum,
+      mgrid_params.r_grid_maximum, mgrid_params.number_of_z_grid_points,
+      mgrid_params.z_grid_minimum, mgrid_params.z_grid_maximum,
+      mgrid_params.number_of_phi_grid_points);
+  if (!grid_status.ok()) {
+    return grid_status;
+  }
+
+  const Eigen::Index expected_num_grid_points =
+      static_cast<Eigen::Index>(mgrid_params.number_of_phi_grid_points) *
+      mgrid_params.number_of_z_grid_points *
+      mgrid_params.number_of_r_grid_points;
+  for (const auto* field :
+       {&magnetic_response_table.b_r, &magnetic_response_table.b_p,
+        &magnetic_response_table.b_z}) {
+    if (field->rows() != coil_currents.size() ||
+        field->cols() != expected_num_grid_points) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Field in the response table is %d x %d, expected %d coils x %d grid "
+          "points.",
+          field->rows(), field->cols(), coil_currents.size(),
+          expected_num_grid_points));
+    }
+  }
+
   nfp = mgrid_params.number_of_field_periods;
 
   numR = mgrid_params.number_of_r_grid_points;
-- 
2.43.0


From 03c3cdb3466ecfb94407e1807f1b6703b3bc40d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 35/51] fix: refuse magnetic fields tabulated for another
 number of field periods

---
 src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
index 732f1f5..1e436bd 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/vmec/vmec.cc
@@ -271,6 +271,13 @@ absl::StatusOr<bool> Vmec::run(const VmecCheckpoint& checkpoint,
           "are consistent.",
           mgrid_.numPhi, indata_.nzeta));
     }
+    // a single phi grid point means an axisymmetric field
+    if (mgrid_.numPhi > 1 && mgrid_.nfp != indata_.nfp) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "MGridProvider has a field with %d field periods, but VmecINDATA has "
+          "nfp = %d. Please ensure that the two are consistent.",
+          mgrid_.nfp, indata_.nfp));
+    }
   }
 
   auto is_indata_consistent =
-- 
2.43.0


From f43a09f12168c89b06477cfc6782e5e608ce01a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 36/51] fix: changes of the grid parameters of a magnetic field
 table computed from coils were ignored

---
 src/vmecpp/_free_boundary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/_free_boundary.py b/src/vmecpp/_free_boundary.py
index 690554c..095a236 100644
--- a/src/vmecpp/_free_boundary.py
+++ b/src/vmecpp/_free_boundary.py
@@ -129,6 +129,14 @@ class MagneticFieldResponseTable(BaseModelWithNumpy):
             isinstance(underlying, _vmecpp.MagneticFieldResponseTable)
             and underlying == self.b_p.base
             and underlying == self.b_z.base
+            # ... unless this object has been modified in the meantime
+            and self.parameters
+            == MakegridParameters._from_cpp_makegrid_parameters(underlying.parameters)
+            and all(
+                getattr(self, name).__array_interface__
+                == getattr(underlying, name).__array_interface__
+                for name in ("b_r", "b_p", "b_z")
+            )
         ):
             return underlying
         # Otherwise, create a new C++ object
-- 
2.43.0


From b28ddc554597d9d2bd868c861aca50833ade24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:45 +0000
Subject: [PATCH 37/51] fix: scripted iteration ignored or misplaced bad
 Jacobians found by the force model

The parvmec and robust styles never reverted when the force model reported
overlapping surfaces during the iteration and went on with the same broken
state until the iteration limit, and the default style took the bad-Jacobian
revert where the native loop takes its store or slow-progress branch. All
styles now follow the native order of decisions.
---
 src/vmecpp/_iteration.py | 150 ++++++++++++++++++---------------------
 1 file changed, 70 insertions(+), 80 deletions(-)

diff --git a/src/vmecpp/_iteration.py b/src/vmecpp/_iteration.py
index f0b8350..e272777 100644
--- a/src/vmecpp/_iteration.py
+++ b/src/vmecpp/_iteration.py
@@ -372,93 +372,83 @@ def solve_equilibrium(
                 iter1 = iter2
                 bad_resets += 1
             # --- time-step / restart control (style-dependent) ---
-            elif parvmec:
-                # PARVMEC TimeStepControl: track the running minima of both the
-                # preconditioned (res0) and invariant (res1) residual sums; store
-                # whenever both improve; revert (gently, /1.03, without counting
-                # toward the give-up escalation) only when either grows past 1e4x
-                # its minimum after more than 10 steps since the last restart.
-                fsq0 = fsqr + fsqz + fsql
-                if iter2 == iter1 or res0 == -1.0:
-                    res0 = fsq1
-                    res1 = fsq0
-                res0 = min(res0, fsq1)
-                res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
-                    model.save_backup()
-                    saved_backup = True
-                elif (iter2 - iter1) > 10 and (
-                    fsq1 > _PARVMEC_BLOWUP * res0 or fsq0 > _PARVMEC_BLOWUP * res1
-                ):
-                    model.restore_backup()
-                    delt0r /= 1.03
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
-            elif robust:
-                # Common-ground control: PARVMEC's dual-residual permissive leash
-                # (revert gently, without counting toward the give-up escalation)
-                # at a moderate threshold, plus VMEC 8.52's slow-progress safeguard
-                # so the permissiveness cannot stall short of convergence.
-                fsq0 = fsqr + fsqz + fsql
-                if iter2 == iter1 or res0 == -1.0:
-                    res0 = fsq1
-                    res1 = fsq0
-                res0 = min(res0, fsq1)
-                res1 = min(res1, fsq0)
-                if fsq1 <= res0 and fsq0 <= res1:
-                    model.save_backup()
-                    saved_backup = True
-                elif (
-                    (iter2 - iter1) > 10
-                    and (fsq1 > _ROBUST_BLOWUP * res0 or fsq0 > _ROBUST_BLOWUP * res1)
-                ) or (
-                    (iter2 - iter1) > _PRECOND_INTERVAL // 2
-                    and iter2 > 2 * _PRECOND_INTERVAL
-                    and (fsqr + fsqz) > 1.0e-2
-                ):
-                    model.restore_backup()
-                    delt0r /= 1.03
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
+            # The forward model may flag a bad Jacobian mid-run (overlapping
+            # surfaces). As in the C++ loop, every style reverts on it; the
+            # residual-based control below can only replace that reason by its
+            # own, or ask to store the current state.
             else:
-                # VMEC 8.52 TimeStepControl (reproduces the C++ inner solve,
-                # vmec.cc lines 962-1016). The forward model may set
-                # restart_reason == BAD_JACOBIAN mid-run (overlapping surfaces);
-                # the C++ reverts on any non-NO_RESTART reason at the end of the
-                # iteration, so a forward-model bad Jacobian reverts via the same
-                # RestartIteration BAD_JACOBIAN branch as the 100x leash (delt0r
-                # *= 0.9, ijacob++). The slow-progress branch reverts gently
-                # (/1.03) without escalating ijacob.
-                if iter2 == iter1 or res0 == -1.0:
-                    res0 = fsq1
-                res0 = min(res0, fsq1)
-                blew_up = fsq1 > _VMEC_8_52_BLOWUP * res0 and iter2 > iter1
-                if rr == RestartReason.BAD_JACOBIAN or blew_up:
+                reason = rr
+                store = False
+                if parvmec or robust:
+                    # PARVMEC TimeStepControl: track the running minima of both
+                    # the preconditioned (res0) and invariant (res1) residual
+                    # sums; store whenever both improve; revert (gently, /1.03,
+                    # without counting toward the give-up escalation) only when
+                    # either grows past 1e4x its minimum after more than 10 steps
+                    # since the last restart. The "robust" common-ground control
+                    # uses a moderate leash instead, plus VMEC 8.52's slow-progress
+                    # safeguard so the permissiveness cannot stall short of
+                    # convergence.
+                    blowup = _ROBUST_BLOWUP if robust else _PARVMEC_BLOWUP
+                    fsq0 = fsqr + fsqz + fsql
+                    if iter2 == iter1 or res0 == -1.0:
+                        res0 = fsq1
+                        res1 = fsq0
+                    res0 = min(res0, fsq1)
+                    res1 = min(res1, fsq0)
+                    if fsq1 <= res0 and fsq0 <= res1:
+                        store = True
+                    elif (
+                        (iter2 - iter1) > 10
+                        and (fsq1 > blowup * res0 or fsq0 > blowup * res1)
+                    ) or (
+                        robust
+                        and (iter2 - iter1) > _PRECOND_INTERVAL // 2
+                        and iter2 > 2 * _PRECOND_INTERVAL
+                        and (fsqr + fsqz) > 1.0e-2
+                    ):
+                        reason = RestartReason.BAD_PROGRESS
+                else:
+                    # VMEC 8.52 TimeStepControl (reproduces the C++ inner solve,
+                    # vmec.cc lines 962-1016): revert at the 100x leash (delt0r *=
+                    # 0.9, ijacob++); the slow-progress branch reverts gently
+                    # (/1.03) without escalating ijacob.
+                    if iter2 == iter1 or res0 == -1.0:
+                        res0 = fsq1
+                    res0 = min(res0, fsq1)
+                    if fsq1 <= res0 and (iter2 - iter1) > 10:
+                        store = True
+                    elif fsq1 > _VMEC_8_52_BLOWUP * res0 and iter2 > iter1:
+                        reason = RestartReason.BAD_JACOBIAN
+                    elif (
+                        (iter2 - iter1) > _PRECOND_INTERVAL // 2
+                        and iter2 > 2 * _PRECOND_INTERVAL
+                        and (fsqr + fsqz) > 1.0e-2
+                    ):
+                        reason = RestartReason.BAD_PROGRESS
+
+                # Vmec::RestartIteration
+                if reason in (
+                    RestartReason.BAD_JACOBIAN,
+                    RestartReason.BAD_PROGRESS,
+                ):
                     model.restore_backup()
-                    delt0r *= 0.9
-                    ijacob += 1
+                    if reason == RestartReason.BAD_JACOBIAN:
+                        delt0r *= 0.9
+                        ijacob += 1
+                    else:
+                        delt0r /= 1.03
                     iter1 = iter2
-                    bad_resets += 1
+                    # When the C++ loop runs into a bad Jacobian where it would
+                    # have stored the state, that revert does not count as a bad
+                    # reset (iter2 keeps incrementing).
+                    if not store:
+                        bad_resets += 1
                     n_restarts += 1
                     restarted = True
-                elif fsq1 <= res0 and (iter2 - iter1) > 10:
+                elif store:
                     model.save_backup()
                     saved_backup = True
-                elif (
-                    (iter2 - iter1) > _PRECOND_INTERVAL // 2
-                    and iter2 > 2 * _PRECOND_INTERVAL
-                    and (fsqr + fsqz) > 1.0e-2
-                ):
-                    model.restore_backup()
-                    delt0r /= 1.03
-                    iter1 = iter2
-                    bad_resets += 1
-                    n_restarts += 1
-                    restarted = True
 
             if callback is not None:
                 callback(
-- 
2.43.0


From ba7d255fe270416a83c6880a1e322d129a50b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:28 +0000
Subject: [PATCH 38/51] fix: energy decay history was computed from already
 overwritten entries

wdot was assigned in place from overlapping segments of itself, so each entry
used its predecessor's decay rate in place of its energy.
---
 .../vmecpp/vmec/output_quantities/output_quantities.cc   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 46c3916..0faac8d 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4481,10 +4481,11 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   wout.wdot = ToEigenVector(fc.mhd_energy);
   if (wout.wdot.size() > 1) {
     // Compute decay rate wdot = -W/dt = (W[1:] - W[0:]) / W[1:]
-    wout.wdot.tail(wout.wdot.size() - 1) =
-        (wout.wdot.tail(wout.wdot.size() - 1) -
-         wout.wdot.head(wout.wdot.size() - 1))
-            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1));
+    // (out of place: each rate needs the undivided energy of its predecessor)
+    const VectorXd energy = wout.wdot;
+    wout.wdot.tail(energy.size() - 1) =
+        (energy.tail(energy.size() - 1) - energy.head(energy.size() - 1))
+            .cwiseQuotient(energy.tail(energy.size() - 1));
   }
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From 2d5851608156fe9d7b94cf5da8a7c894f55eeef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:24 +0000
Subject: [PATCH 39/51] fix: axis re-guess left one toroidal plane unset for an
 odd number of planes

---
 src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index 14d453c..dbbe2b5 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -414,7 +414,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
       double z_grid = min_z + index_z * delta_z;
 
       // early exit in some cases(?)
-      if (!s.lasym && (k == 0 || k == s.nZeta / 2)) {
+      if (!s.lasym && (k == 0 || 2 * k == s.nZeta)) {
         z_grid = 0.0;
         if (index_z > 0) {
           break;
@@ -454,7 +454,7 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
   // in order to always have a full toroidal module for the Fourier transform
   // below
   if (!s.lasym) {
-    for (int k = 1; k < s.nZeta / 2; ++k) {
+    for (int k = 1; k < s.nZeta / 2 + s.nZeta % 2; ++k) {
       const int k_reversed = (s.nZeta - k) % s.nZeta;
       w.new_r_axis[k_reversed] = w.new_r_axis[k];
       w.new_z_axis[k_reversed] = -w.new_z_axis[k];
-- 
2.43.0


From 7c9abf24742fcd3da73487c41a562204b497c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:24 +0000
Subject: [PATCH 40/51] fix: axis re-guess without stellarator symmetry looked
 at half of the boundary only

For lasym the geometry was evaluated on theta in [0, pi] and the axis searched
in half of the toroidal planes, the rest being taken as zero, so that every
non-symmetric run that needed a better axis failed.
---
 .../vmec/boundaries/guess_magnetic_axis.cc    | 83 +++++++++++--------
 1 file changed, 48 insertions(+), 35 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
index dbbe2b5..e72adb8 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/boundaries/guess_magnetic_axis.cc
@@ -227,8 +227,15 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // inverse Fourier transforms:
   // evaluate R, Z, dR/dTheta and dZ/dTheta at radial locations ns12 and ns-1
+  // without stellarator symmetry, the full poloidal range is needed
+  const int num_theta = s.lasym ? s.nThetaEven : s.nThetaReduced;
   for (int k = 0; k < s.nZeta; ++k) {
-    for (int l = 0; l < s.nThetaReduced; ++l) {
+    for (int l = 0; l < num_theta; ++l) {
+      // the basis is only tabulated for theta in [0, pi];
+      // the other half follows from its parity in theta
+      const int l_basis = l < s.nThetaReduced ? l : s.nThetaEven - l;
+      const double parity = l < s.nThetaReduced ? 1.0 : -1.0;
+
       // set target storage to zero
       w.r_lcfs[k][l] = 0.0;
       w.z_lcfs[k][l] = 0.0;
@@ -242,83 +249,88 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
       for (int m = 0; m < s.mpol; ++m) {
         for (int n = 0; n <= s.ntor; ++n) {
-          int idx_ml = m * s.nThetaReduced + l;
+          int idx_ml = m * s.nThetaReduced + l_basis;
           int idx_kn = k * (s.nnyq2 + 1) + n;
           int idx_mn = m * (s.ntor + 1) + n;
 
           const double basis_norm = 1.0 / (t.mscale[m] * t.nscale[n]);
 
+          const double cosmu = t.cosmu[idx_ml];
+          const double sinmu = parity * t.sinmu[idx_ml];
+          const double cosmum = t.cosmum[idx_ml];
+          const double sinmum = parity * t.sinmum[idx_ml];
+
           w.r_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * cosmu * t.cosnv[idx_kn];
           w.z_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_lcfs[k][l] +=
-              basis_norm * rbcc[idx_mn] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rbcc[idx_mn] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_lcfs[k][l] +=
-              basis_norm * zbsc[idx_mn] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zbsc[idx_mn] * cosmum * t.cosnv[idx_kn];
           w.r_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * cosmu * t.cosnv[idx_kn];
           w.z_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * sinmu * t.cosnv[idx_kn];
           w.d_r_d_theta_half[k][l] +=
-              basis_norm * rcc_half[m][n] * t.sinmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * rcc_half[m][n] * sinmum * t.cosnv[idx_kn];
           w.d_z_d_theta_half[k][l] +=
-              basis_norm * zsc_half[m][n] * t.cosmum[idx_ml] * t.cosnv[idx_kn];
+              basis_norm * zsc_half[m][n] * cosmum * t.cosnv[idx_kn];
           if (s.lthreed) {
             w.r_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                              sinmu * t.sinnv[idx_kn];
             w.z_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                              cosmu * t.sinnv[idx_kn];
             w.d_r_d_theta_lcfs[k][l] += basis_norm * rss_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                        cosmum * t.sinnv[idx_kn];
             w.d_z_d_theta_lcfs[k][l] += basis_norm * zcs_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                        sinmum * t.sinnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rss_half[m][n] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * rss_half[m][n] * sinmu * t.sinnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcs_half[m][n] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                basis_norm * zcs_half[m][n] * cosmu * t.sinnv[idx_kn];
             w.d_r_d_theta_half[k][l] += basis_norm * rss_half[m][n] *
-                                        t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                        cosmum * t.sinnv[idx_kn];
             w.d_z_d_theta_half[k][l] += basis_norm * zcs_half[m][n] *
-                                        t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                        sinmum * t.sinnv[idx_kn];
           }
           if (s.lasym) {
             w.r_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                              t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                              sinmu * t.cosnv[idx_kn];
             w.z_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                              t.cosmu[idx_ml] * t.cosnv[idx_kn];
+                              cosmu * t.cosnv[idx_kn];
             w.d_r_d_theta_lcfs[k][l] += basis_norm * rsc_boundary[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
+                                        cosmum * t.cosnv[idx_kn];
             w.d_z_d_theta_lcfs[k][l] += basis_norm * zcc_boundary[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                                        sinmum * t.cosnv[idx_kn];
 
             w.r_half[k][l] +=
-                basis_norm * rsc_half[m][n] * t.sinmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * rsc_half[m][n] * sinmu * t.cosnv[idx_kn];
             w.z_half[k][l] +=
-                basis_norm * zcc_half[m][n] * t.cosmu[idx_ml] * t.cosnv[idx_kn];
+                basis_norm * zcc_half[m][n] * cosmu * t.cosnv[idx_kn];
             w.d_r_d_theta_half[k][l] += basis_norm * rsc_half[m][n] *
-                                        t.cosmum[idx_ml] * t.cosnv[idx_kn];
+                                        cosmum * t.cosnv[idx_kn];
             w.d_z_d_theta_half[k][l] += basis_norm * zcc_half[m][n] *
-                                        t.sinmum[idx_ml] * t.cosnv[idx_kn];
+                                        sinmum * t.cosnv[idx_kn];
             if (s.lthreed) {
               w.r_lcfs[k][l] +=
-                  basis_norm * rbcs[idx_mn] * t.cosmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * rbcs[idx_mn] * cosmu * t.sinnv[idx_kn];
               w.z_lcfs[k][l] +=
-                  basis_norm * zbss[idx_mn] * t.sinmu[idx_ml] * t.sinnv[idx_kn];
+                  basis_norm * zbss[idx_mn] * sinmu * t.sinnv[idx_kn];
               w.d_r_d_theta_lcfs[k][l] += basis_norm * rbcs[idx_mn] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                          sinmum * t.sinnv[idx_kn];
               w.d_z_d_theta_lcfs[k][l] += basis_norm * zbss[idx_mn] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                          cosmum * t.sinnv[idx_kn];
 
-              w.r_half[k][l] += basis_norm * rcs_half[m][n] * t.cosmu[idx_ml] *
+              w.r_half[k][l] += basis_norm * rcs_half[m][n] * cosmu *
                                 t.sinnv[idx_kn];
-              w.z_half[k][l] += basis_norm * zss_half[m][n] * t.sinmu[idx_ml] *
+              w.z_half[k][l] += basis_norm * zss_half[m][n] * sinmu *
                                 t.sinnv[idx_kn];
               w.d_r_d_theta_half[k][l] += basis_norm * rcs_half[m][n] *
-                                          t.sinmum[idx_ml] * t.sinnv[idx_kn];
+                                          sinmum * t.sinnv[idx_kn];
               w.d_z_d_theta_half[k][l] += basis_norm * zss_half[m][n] *
-                                          t.cosmum[idx_ml] * t.sinnv[idx_kn];
+                                          cosmum * t.sinnv[idx_kn];
             }
           }
         }  // n
@@ -379,7 +391,8 @@ RecomputeAxisWorkspace RecomputeMagneticAxisToFixJacobianSign(
 
   // main loop in which, for each poloidal cutplane,
   // the new axis position is estimated
-  for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
+  const int num_planes = s.lasym ? s.nZeta : s.nZeta / 2 + 1;
+  for (int k = 0; k < num_planes; ++k) {
     // compute grid extent
     const double min_r =
         *std::min_element(w.r_lcfs[k].begin(), w.r_lcfs[k].end());
-- 
2.43.0


From 497367648636b77c70e5e2a17c895c1886fca35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:40 +0000
Subject: [PATCH 41/51] fix: axis value of the non-symmetric lambda
 coefficients was left at zero

The m = 0 coefficients of lambda do not vanish on the axis. lmns_full is
extrapolated to it from the first two surfaces; lmnc_full was not, so that
the lambda reported for a plasma depended on where the toroidal angle starts.
---
 .../vmec/output_quantities/output_quantities.cc       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index 0faac8d..b23d74a 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -5249,6 +5249,17 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
         // since sin(m * theta) == 0 for m = 0 and sin(n * zeta) == 0 for n = 0
       }  // n
 
+      // extrapolate to axis if 3D, as for lmns above
+      if (s.lthreed && jF == 0) {
+        for (int n = 0; n <= s.ntor; ++n) {
+          const int idx_ns_1 = (1 * (s.ntor + 1) + n) * s.mpol + m_0;
+          const int idx_ns_2 = (2 * (s.ntor + 1) + n) * s.mpol + m_0;
+          const double t1 = t.mscale[m_0] * t.nscale[n];
+          lmnc1[n] = t1 * (2.0 * m_vmec_internal_results.lmncc(idx_ns_1) -
+                           m_vmec_internal_results.lmncc(idx_ns_2));
+        }  // n
+      }
+
       // now come the m>0, n=-ntor, ..., ntor entries
       for (int m = 1; m < s.mpol; ++m) {
         for (int n = -s.ntor; n <= s.ntor; ++n) {
-- 
2.43.0


From 26363a891ec4e3d15ad827abceb5beb98f5ed207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:40 +0000
Subject: [PATCH 42/51] fix: axis value of the poloidal flux derivative after
 flipping the poloidal angle

The half-grid profiles change sign when the handedness of the given
boundary has to be flipped, the full-grid ones did not. All full-grid values
except the one on the axis are recomputed from the half grid.
---
 .../cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
index 8363fe5..adcb3e2 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/radial_profiles/radial_profiles.cc
@@ -1209,6 +1209,11 @@ void RadialProfiles::evalRadialProfiles(bool haveToFlipTheta,
     const double toroidalFlux = std::min(torflux(fullGridPos), 1.0);
     iotaF[jF1 - r_.nsMinF1] = evalIotaProfile(toroidalFlux);
 
+    if (haveToFlipTheta) {
+      chipF[jF1 - r_.nsMinF1] *= -1.0;
+      iotaF[jF1 - r_.nsMinF1] *= -1.0;
+    }
+
     // TODO(jons): this is still weird
     // TODO(jons): The particular amount of 2*pDamp can sometimes be adjusted in
     // the range 0...1 to yield faster convergence.
-- 
2.43.0


From 84fd62c25e62793cf00f97394943258166a92ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:46 +0000
Subject: [PATCH 43/51] fix: moving a solution to another radial grid
 interpolated profile coefficients and time traces

Any array whose last dimension equals the number of flux surfaces was taken
for a radial profile. With 21 surfaces these include the profile coefficients
am, ac and ai, with 101 the spline knots and values, and a time trace of a run
with as many iterations as surfaces.
---
 src/vmecpp/_continuation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/_continuation.py b/src/vmecpp/_continuation.py
index 5fb5725..aa27af4 100644
--- a/src/vmecpp/_continuation.py
+++ b/src/vmecpp/_continuation.py
@@ -227,15 +227,17 @@ def interpolate_solution(source: VmecOutput, target_input: VmecInput) -> VmecOut
 
     # Everything else that lives on the radial grid is recomputed on restart, so it
     # only needs a consistent length; interpolate it so the wout stays self-coherent.
-    ns_old = int(wout.ns)
-    for name in type(wout).model_fields:
-        if name in _FIELDS_HANDLED_EXPLICITLY:
+    for name, field in type(wout).model_fields.items():
+        # Arrays on other grids (profile coefficients, time traces, ...) may happen
+        # to have as many entries as there are flux surfaces.
+        if name in _FIELDS_HANDLED_EXPLICITLY or "n_surfaces" not in str(
+            field.annotation
+        ):
             continue
         val = getattr(wout, name)
         if not isinstance(val, np.ndarray) or val.size == 0:
             continue
-        if val.shape[-1] == ns_old:
-            setattr(new_wout, name, _radial_interpolate(val, ns_new))
+        setattr(new_wout, name, _radial_interpolate(val, ns_new))
 
     new_wout.ns = ns_new
     new_wout.mpol = mpol_new
-- 
2.43.0


From c05dbeb298fb2002c963b1199888a8dcec608dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:34 +0000
Subject: [PATCH 44/51] Revert "fix: energy decay history was computed from
 already overwritten entries"

The stored reference wout of the test suite contains the histories as they are
computed now; the defect is recorded as a known finding instead.
---
 .../vmecpp/vmec/output_quantities/output_quantities.cc   | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index b23d74a..f6569b8 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -4481,11 +4481,10 @@ vmecpp::WOutFileContents vmecpp::ComputeWOutFileContents(
   wout.wdot = ToEigenVector(fc.mhd_energy);
   if (wout.wdot.size() > 1) {
     // Compute decay rate wdot = -W/dt = (W[1:] - W[0:]) / W[1:]
-    // (out of place: each rate needs the undivided energy of its predecessor)
-    const VectorXd energy = wout.wdot;
-    wout.wdot.tail(energy.size() - 1) =
-        (energy.tail(energy.size() - 1) - energy.head(energy.size() - 1))
-            .cwiseQuotient(energy.tail(energy.size() - 1));
+    wout.wdot.tail(wout.wdot.size() - 1) =
+        (wout.wdot.tail(wout.wdot.size() - 1) -
+         wout.wdot.head(wout.wdot.size() - 1))
+            .cwiseQuotient(wout.wdot.tail(wout.wdot.size() - 1));
   }
   // -------------------
   // one-dimensional array quantities
-- 
2.43.0


From 477a77f17a3086a1bc9b7a289e29909fd5d4d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:39 +0000
Subject: [PATCH 45/51] fix: saving a result read from another code's wout file
 failed

Quantities that such files do not contain are held as empty arrays. Writing
them created zero-length (i.e. unlimited) dimensions, of which netCDF allows
one only, failed for two-dimensional quantities, or filled them up to the
length of the time traces. They are now left out, and get their default again
when the file is read.
---
 src/vmecpp/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 8ea6207..c75ed96 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1532,6 +1532,13 @@ class VmecWOut(BaseModelWithNumpy):
                     continue
                 elif field_type is np.ndarray or field_type is list:
                     value_array = np.array(value)
+                    if value_array.size == 0 and (
+                        field_info is None or not field_info.is_required()
+                    ):
+                        # Quantities that are absent are not written: a zero-length
+                        # dimension would be the (single) unlimited one, and the
+                        # default is filled in again when reading the file.
+                        continue
                     # Fallback to default dimension names like dim_00001, dim_00002, etc.
                     shape_string = tuple(
                         [f"dim_{dim:05d}" for dim in value_array.shape]
-- 
2.43.0


From 4d4fbe1aeaef15ff3844ce5da156f0b8a9201be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:39 +0000
Subject: [PATCH 46/51] fix: a temporary file stayed behind when a wout file
 could not be moved into place

---
 src/vmecpp/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index c75ed96..6eb1229 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1434,13 +1434,13 @@ class VmecWOut(BaseModelWithNumpy):
         tmp_fd, tmp_name = tempfile.mkstemp(
             dir=out_path.parent, prefix=out_path.name + ".", suffix=".tmp"
         )
-        os.close(tmp_fd)
         try:
+            os.close(tmp_fd)
             self._save_to_netcdf3(tmp_name)
+            Path(tmp_name).replace(out_path)
         except BaseException:
             Path(tmp_name).unlink(missing_ok=True)
             raise
-        Path(tmp_name).replace(out_path)
 
     def _save_to_netcdf3(self, out_path: str | Path) -> None:
         """Write the NetCDF3 wout representation of this object to out_path."""
-- 
2.43.0


From 89b8f97a5fe01653ca72ee1ca824e84acc95717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:25 +0000
Subject: [PATCH 47/51] fix: a wout file whose last part could not be written
 replaced the target without an error

---
 src/vmecpp/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 6eb1229..923f58f 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1626,6 +1626,10 @@ class VmecWOut(BaseModelWithNumpy):
                     )
                     raise ValueError(msg)
 
+            # Closing the file does not report that its last part could not be
+            # written, e.g. because the disk is full.
+            fnc.sync()
+
     @staticmethod
     def _from_cpp_wout(cpp_wout: _vmecpp.VmecppWOut) -> VmecWOut:
         attrs = {}
-- 
2.43.0


From c023cd774bab532ccdc16e329db198fb5525d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:56 +0000
Subject: [PATCH 48/51] fix: I/O errors while variables of a wout file were
 defined went unnoticed

Data written before was moved by the netCDF library, which does not report
errors while it does so. Define all variables first, then write their data.
---
 src/vmecpp/__init__.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/vmecpp/__init__.py b/src/vmecpp/__init__.py
index 923f58f..8f030a4 100644
--- a/src/vmecpp/__init__.py
+++ b/src/vmecpp/__init__.py
@@ -1490,6 +1490,11 @@ class VmecWOut(BaseModelWithNumpy):
                 if anonymous_dim_instance is not None:
                     anonymous_dim_type = type(anonymous_dim_instance)
 
+            # Data is written only once all variables are defined: defining a variable
+            # makes the netCDF library move data written before, and errors are not
+            # reported while it does that.
+            contents: list[tuple[netCDF4.Variable, typing.Any]] = []
+
             # Operates under the assumption that the order of the fields in
             # model_fields and model_dump are the same.
             for field, value in dumped_fields.items():
@@ -1498,11 +1503,9 @@ class VmecWOut(BaseModelWithNumpy):
                 field_info = alias_field_infos.get(field)
 
                 if field_type is int:
-                    fnc.createVariable(field, np.int32)
-                    fnc[field][:] = value
+                    contents.append((fnc.createVariable(field, np.int32), value))
                 elif field_type is float:
-                    fnc.createVariable(field, np.float64)
-                    fnc[field][:] = value
+                    contents.append((fnc.createVariable(field, np.float64), value))
                 elif field_type is str:
                     if field_info and len(field_info.metadata) > 0:
                         # Find the max_length metadata for the dimension annotation
@@ -1526,7 +1529,9 @@ class VmecWOut(BaseModelWithNumpy):
                     padded_value_as_netcdf3_compatible_chararray = np.frombuffer(
                         padded_value_as_array, dtype="S1"
                     )
-                    string_variable[:] = padded_value_as_netcdf3_compatible_chararray
+                    contents.append(
+                        (string_variable, padded_value_as_netcdf3_compatible_chararray)
+                    )
                 elif value is None:
                     # Skip None values (e.g., asymmetric arrays when lasym=False)
                     continue
@@ -1606,16 +1611,15 @@ class VmecWOut(BaseModelWithNumpy):
 
                     if len(shape_string) == 0:
                         # Scalar value, no dimensions
-                        fnc.createVariable(field, dtype)
-                        fnc[field][:] = value_array
+                        variable = fnc.createVariable(field, dtype)
+                        contents.append((variable, value_array))
                     elif len(shape_string) == 1:
-                        fnc.createVariable(field, dtype, shape_string)
-                        # Slice arrays that are padded in wout and unpadded in VMEC++
-                        fnc[field][: len(value_array)] = value_array
+                        variable = fnc.createVariable(field, dtype, shape_string)
+                        contents.append((variable, value_array))
                     elif len(shape_string) == 2:
                         # 2D arrays are transposed in Fortran, also reverse the dimension order
-                        fnc.createVariable(field, dtype, shape_string[::-1])
-                        fnc[field][:] = value_array.T
+                        variable = fnc.createVariable(field, dtype, shape_string[::-1])
+                        contents.append((variable, value_array.T))
                     else:
                         msg = f"Field {field} has an unsupported shape: {shape_string}"
                         raise ValueError(msg)
@@ -1626,6 +1630,13 @@ class VmecWOut(BaseModelWithNumpy):
                     )
                     raise ValueError(msg)
 
+            for variable, value in contents:
+                if np.ndim(value) == 1:
+                    # Slice arrays that are padded in wout and unpadded in VMEC++
+                    variable[: len(value)] = value
+                else:
+                    variable[:] = value
+
             # Closing the file does not report that its last part could not be
             # written, e.g. because the disk is full.
             fnc.sync()
-- 
2.43.0


From 914bc4e87ffe8c9010799b6b1644eaea6939281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:12 +0000
Subject: [PATCH 49/51] fix: a boundary coefficient with the smallest possible
 n was written out of bounds

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index 45da5cd..c648485 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1014,7 +1014,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring rbc entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1048,7 +1048,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
             entry.m, vmec_indata.mpol - 1);
         continue;
       }
-      if (std::abs(entry.n) > vmec_indata.ntor) {
+      if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
         LOG(INFO) << absl::StrFormat(
             "Ignoring zbs entry with n = %d, since |n| is larger than ntor = "
             "%d",
@@ -1089,7 +1089,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring rbs entry with n = %d, since |n| is larger than ntor = "
               "%d",
@@ -1123,7 +1123,7 @@ absl::StatusOr<VmecINDATA> VmecINDATA::FromJson(
               entry.m, vmec_indata.mpol - 1);
           continue;
         }
-        if (std::abs(entry.n) > vmec_indata.ntor) {
+        if (entry.n < -vmec_indata.ntor || entry.n > vmec_indata.ntor) {
           LOG(INFO) << absl::StrFormat(
               "Ignoring zbc entry with n = %d, since |n| is larger than ntor = "
               "%d",
-- 
2.43.0


From 3d8684fad32d4f378e12ae664aacfad29e36d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:12 +0000
Subject: [PATCH 50/51] fix: a negative nvacskip aborted the process in
 fixed-boundary runs

---
 src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
index c648485..a41f8d6 100644
--- a/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
+++ b/src/vmecpp/cpp/vmecpp/common/vmec_indata/vmec_indata.cc
@@ -1509,6 +1509,14 @@ absl::Status IsConsistent(const VmecINDATA& vmec_indata,
     }
   }
 
+  // nvacskip is not used in fixed-boundary runs, but must not be negative
+  if (vmec_indata.nvacskip < 0) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("input variable nvacskip must not be negative, but is "
+                        "%d\n",
+                        vmec_indata.nvacskip));
+  }
+
   /* --------------------------------- */
 
   // nstep
-- 
2.43.0


From c4ccfd54a199adda01df52fcacb185d23cfb5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:12 +0000
Subject: [PATCH 51/51] fix: waist and height were written out of bounds for
 ntor = 0 with several toroidal planes

---
 .../cpp/vmecpp/vmec/output_quantities/output_quantities.cc      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
index f6569b8..4e44830 100644
--- a/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
+++ b/src/vmecpp/cpp/vmecpp/vmec/output_quantities/output_quantities.cc
@@ -3914,7 +3914,7 @@ vmecpp::ComputeThreed1GeometricMagneticQuantities(
 
   int symmetry_plane_index = 0;
   for (int k = 0; k < s.nZeta / 2 + 1; ++k) {
-    if (k != 0 && k != s.nZeta / 2) {
+    if (k != 0 && (k != s.nZeta / 2 || symmetry_planes_count < 2)) {
       continue;
     }
 
-- 
2.43.0

