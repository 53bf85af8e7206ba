#include <vcboost.h>
