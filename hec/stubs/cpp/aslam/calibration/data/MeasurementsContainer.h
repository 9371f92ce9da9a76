#include "hec_estimator.h"
