#include "XmssCore.h"
