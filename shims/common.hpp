// Shared helpers of the pybind11 shims (test access to nrlib).
#pragma once
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <pybind11/complex.h>
#include <string>
#include <vector>
#include <complex>
namespace py = pybind11;
typedef py::array_t<double, py::array::f_style | py::array::forcecast> darr;
