// Declares (never defines) value factories: the drivers are only parsed, never linked or run.
#pragma once
#include <vif.hpp>
using namespace vif;
using namespace vif::astro;
template<typename T> T mk();
template<typename T> T& lv();
