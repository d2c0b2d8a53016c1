// Stand-in for the header that the jrl-cmakemodules generate.
#ifndef SOT_CORE_CONFIG_HH_STANDIN
#define SOT_CORE_CONFIG_HH_STANDIN
#define SOT_CORE_DLLAPI
#define SOT_CORE_LOCAL
#define SOT_CORE_VERSION "standin"
#endif
