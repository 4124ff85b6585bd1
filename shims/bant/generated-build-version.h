#define BANT_BUILD_VERSION "verif"
