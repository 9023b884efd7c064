#include "vf_text.h"
