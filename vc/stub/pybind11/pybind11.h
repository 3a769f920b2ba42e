#pragma once
namespace pybind11 { struct dict {}; }
