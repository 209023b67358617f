#pragma once
// device intrinsics are provided by sim/h/flavour.hpp
