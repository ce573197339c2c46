#pragma once
#include <dynamic-graph/dg-shim.hh>
