// -DSOURCE=file: the executors, -DGENERATED=file: tables of calls of them.
#define CONST_TABLES
#include "constant.hpp"
#include SOURCE
#include GENERATED
