#pragma once
#define SOT_CORE_VERSION "4.11.8"
#define SOT_CORE_LOCAL
#define SOT_CORE_DLLIMPORT
#define SOT_CORE_DLLEXPORT
#define SOT_CORE_DLLAPI
