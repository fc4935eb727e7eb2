#include "numpy/ndarraytypes.h"
