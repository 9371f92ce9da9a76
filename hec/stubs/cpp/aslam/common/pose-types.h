#include "hec_extractor.h"
